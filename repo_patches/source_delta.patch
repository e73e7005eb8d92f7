From b0ff03f9a7c86861fa8eb7ac03dd986eccd5ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 01/31] fix: compare the byte-slice length prefix without
 truncating it to int

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 14f4e7c..76dbc4c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -288,7 +288,7 @@ func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
 		err = fmt.Errorf("invalid negative length %v decoding []byte", count)
 		return
 	}
-	if len(bz) < int(count) {
+	if uint64(len(bz)) < count {
 		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
 		return
 	}
-- 
2.43.0


From 3801bca7cdc71477d7a7877a19be04eff6d26c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 02/31] fix: reject encoded integers that overflow uint32 or
 uint

---
 binary-decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..7a64d09 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -226,6 +226,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
@@ -254,6 +258,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		if num > uint64(^uint(0)) {
+			err = ErrOverflowInt
+			return
+		}
 		rv.SetUint(num)
 		return
 
-- 
2.43.0


From 6fadbf42625e4ea0cacd1fc8928471e658b5e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 03/31] fix: account for the length prefix actually read when
 decoding a frame

---
 binary-decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 7a64d09..19e2478 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -349,7 +349,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -496,7 +496,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -674,7 +674,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -792,7 +792,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
-- 
2.43.0


From e927ead9b21866e30b9e5e0f9498da1f9628be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 04/31] fix: reject bytes left over inside a time or
 repeated-field frame

---
 binary-decode.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 19e2478..e5a78a1 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -581,6 +581,10 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 		// and no field number regression either.
 		// This is to provide better error messages.
 		if len(bz) > 0 {
+			if !bare {
+				err = errors.New("bytes left over after reading array contents")
+				return
+			}
 			var fnum uint32
 			fnum, _, _, err = decodeFieldNumberAndTyp3(bz)
 			if err != nil {
@@ -762,6 +766,11 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			}
 			srv = reflect.Append(srv, erv)
 		}
+		// Ensure that we read the whole frame.
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading slice contents")
+			return
+		}
 	}
 	rv.Set(srv)
 	return n, err
@@ -805,6 +814,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		if len(bz) > 0 {
+			err = errors.New("bytes left over after reading time contents")
+			return
+		}
 		rv.Set(reflect.ValueOf(t))
 
 	default:
-- 
2.43.0


From d3fcac00d51daebc290954cd194adb0ac32c16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 05/31] fix: do not panic when decoding into a pointer to a
 non-nil slice or array pointer

---
 amino.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 9716ae7..6e0ac69 100644
--- a/amino.go
+++ b/amino.go
@@ -471,8 +471,8 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 		return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct ||
 			rt.Kind() == reflect.Array && rt.Elem().Kind() == reflect.Struct
 	}
-	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Elem().Kind() == reflect.Struct
-	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Elem().Kind() == reflect.Struct
+	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Type().Elem().Kind() == reflect.Struct
+	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Type().Elem().Kind() == reflect.Struct
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
-- 
2.43.0


From 239a6201b648b8e5c52610d13d494a6b2fa81261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 06/31] fix: decode registered non-struct values held by an
 interface in field number 1

---
 binary-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index e5a78a1..ccfffbc 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -381,7 +381,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
-		fopts.BinFieldNum == 1 {
+		bare {
 		var (
 			fnum      uint32
 			typ       Typ3
-- 
2.43.0


From df0a05412b3f415c9d495d06b81f3c7d717f60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 07/31] fix: report malformed or oversized length prefixes when
 unmarshalling from a reader

---
 amino.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/amino.go b/amino.go
index 6e0ac69..a76818a 100644
--- a/amino.go
+++ b/amino.go
@@ -297,7 +297,7 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
 			return
 		}
@@ -305,15 +305,17 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
+		if maxSize > 0 && n >= maxSize {
 			err = errors.Errorf(
 				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
 				maxSize,
 			)
+			return
 		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, _n := binary.Uvarint(buf[:])
+	if _n <= 0 {
+		err = errors.Errorf("Error reading msg byte-length prefix: got code %v", _n)
 		return
 	}
 	if maxSize > 0 {
@@ -331,9 +333,10 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 	l = int64(u64)
 	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+		err = errors.Errorf(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-- 
2.43.0


From 936f7d6687d10e5a957c62a8d14cc66705b026a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 08/31] fix: do not allocate the announced length before
 reading it

---
 amino.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index a76818a..a08db1b 100644
--- a/amino.go
+++ b/amino.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"reflect"
 	"time"
 
@@ -340,11 +341,16 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	// NOTE: The buffer grows with the bytes actually read, so that a length
+	// prefix alone cannot make us allocate.
+	bz, err := ioutil.ReadAll(io.LimitReader(r, l))
 	if err != nil {
 		return
 	}
+	if int64(len(bz)) < l {
+		err = io.ErrUnexpectedEOF
+		return
+	}
 	n += l
 
 	// Decode.
-- 
2.43.0


From 3ec49af8f0f4d264851e51c6735262e2f3ecbeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 09/31] fix: release the codec mutex when constructing type
 info panics

---
 codec.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index b8b4c9b..92846c7 100644
--- a/codec.go
+++ b/codec.go
@@ -364,10 +364,10 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 }
 
 func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error) {
-	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
-	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-	// mutex.
+	// NOTE: newTypeInfoUnregistered panics on unsupported types, so we must
+	// defer the unlock lest the Codec becomes unusable after such a panic.
 	cdc.mtx.Lock() // requires wlock because we might set.
+	defer cdc.mtx.Unlock()
 
 	// Dereference pointer type.
 	for rt.Kind() == reflect.Ptr {
@@ -378,14 +378,12 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 	if !ok {
 		if rt.Kind() == reflect.Interface {
 			err = fmt.Errorf("unregistered interface %v", rt)
-			cdc.mtx.Unlock()
 			return
 		}
 
 		info = cdc.newTypeInfoUnregistered(rt)
 		cdc.setTypeInfoNolock(info)
 	}
-	cdc.mtx.Unlock()
 	return info, nil
 }
 
-- 
2.43.0


From 6603b7bee8dc134e6a0171656c82d2503fe45b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 10/31] fix: leave the codec unchanged when a registration
 fails

---
 codec.go | 82 +++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/codec.go b/codec.go
index 92846c7..e3b4bc2 100644
--- a/codec.go
+++ b/codec.go
@@ -237,6 +237,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.checkTypeInfoNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -337,18 +338,31 @@ func (cdc *Codec) assertNotSealed() {
 
 func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 
-	if info.Type.Kind() == reflect.Ptr {
-		panic(fmt.Sprintf("unexpected pointer type"))
-	}
-	if _, ok := cdc.typeInfos[info.Type]; ok {
-		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
-	}
+	// Check all conflicts before writing anything, so that a failed
+	// registration leaves no trace.
+	cdc.checkTypeInfoNolock(info)
 
 	cdc.typeInfos[info.Type] = info
 	if info.Type.Kind() == reflect.Interface {
 		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
 	} else if info.Registered {
 		cdc.concreteInfos = append(cdc.concreteInfos, info)
+		cdc.disfixToTypeInfo[info.GetDisfix()] = info
+		cdc.nameToTypeInfo[info.Name] = info
+		//cdc.prefixToTypeInfos[prefix] =
+		//	append(cdc.prefixToTypeInfos[prefix], info)
+	}
+}
+
+// Panics if info conflicts with what is already registered.
+func (cdc *Codec) checkTypeInfoNolock(info *TypeInfo) {
+	if info.Type.Kind() == reflect.Ptr {
+		panic(fmt.Sprintf("unexpected pointer type"))
+	}
+	if _, ok := cdc.typeInfos[info.Type]; ok {
+		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
+	}
+	if info.Registered {
 		disfix := info.GetDisfix()
 		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
 			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
@@ -356,10 +370,6 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
 			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
 		}
-		cdc.disfixToTypeInfo[disfix] = info
-		cdc.nameToTypeInfo[info.Name] = info
-		//cdc.prefixToTypeInfos[prefix] =
-		//	append(cdc.prefixToTypeInfos[prefix], info)
 	}
 }
 
@@ -634,21 +644,30 @@ func (cdc *Codec) collectImplementersNolock(info *TypeInfo) {
 func (cdc *Codec) checkConflictsInPrioNolock(iinfo *TypeInfo) error {
 
 	for _, cinfos := range iinfo.Implementers {
-		if len(cinfos) < 2 {
-			continue
+		err := cdc.checkConflictInPrioNolock(iinfo, cinfos)
+		if err != nil {
+			return err
 		}
-		for _, cinfo := range cinfos {
-			var inPrio = false
-			for _, disfix := range iinfo.InterfaceInfo.Priority {
-				if cinfo.GetDisfix() == disfix {
-					inPrio = true
-				}
-			}
-			if !inPrio {
-				return errors.Errorf("%v conflicts with %v other(s). Add it to the priority list for %v.",
-					cinfo.Type, len(cinfos), iinfo.Type)
+	}
+	return nil
+}
+
+// Like checkConflictsInPrioNolock, for cinfos which all have the same prefix.
+func (cdc *Codec) checkConflictInPrioNolock(iinfo *TypeInfo, cinfos []*TypeInfo) error {
+	if len(cinfos) < 2 {
+		return nil
+	}
+	for _, cinfo := range cinfos {
+		var inPrio = false
+		for _, disfix := range iinfo.InterfaceInfo.Priority {
+			if cinfo.GetDisfix() == disfix {
+				inPrio = true
 			}
 		}
+		if !inPrio {
+			return errors.Errorf("%v conflicts with %v other(s). Add it to the priority list for %v.",
+				cinfo.Type, len(cinfos), iinfo.Type)
+		}
 	}
 	return nil
 }
@@ -658,23 +677,26 @@ func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
+	var iinfos []*TypeInfo
 	for _, iinfo := range cdc.interfaceInfos {
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
 
-		// Add cinfo to iinfo.Implementers.
-		var origImpls = iinfo.Implementers[cinfo.Prefix]
-		iinfo.Implementers[cinfo.Prefix] = append(origImpls, cinfo)
-
-		// Finally, check that all conflicts are in `.Priority`.
+		// Check that all conflicts are in `.Priority`, before adding cinfo to
+		// any of the interfaces.
 		// NOTE: This could be optimized, but it's non-trivial.
-		err := cdc.checkConflictsInPrioNolock(iinfo)
+		var cinfos = append([]*TypeInfo{cinfo}, iinfo.Implementers[cinfo.Prefix]...)
+		err := cdc.checkConflictInPrioNolock(iinfo, cinfos)
 		if err != nil {
-			// Return to previous state.
-			iinfo.Implementers[cinfo.Prefix] = origImpls
 			panic(err)
 		}
+		iinfos = append(iinfos, iinfo)
+	}
+
+	// Finally, add cinfo to iinfo.Implementers.
+	for _, iinfo := range iinfos {
+		iinfo.Implementers[cinfo.Prefix] = append(iinfo.Implementers[cinfo.Prefix], cinfo)
 	}
 }
 
-- 
2.43.0


From 63dfdb5853b4bf90af7558eb77a65b1c6e883d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 11/31] fix: check the seal in the critical section that
 registers

---
 codec.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index e3b4bc2..a3629c0 100644
--- a/codec.go
+++ b/codec.go
@@ -152,8 +152,6 @@ func NewCodec() *Codec {
 // Usage:
 // `amino.RegisterInterface((*MyInterface1)(nil), nil)`
 func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
-	cdc.assertNotSealed()
-
 	// Get reflect.Type from ptr.
 	rt := getTypeFromPointer(ptr)
 	if rt.Kind() != reflect.Interface {
@@ -168,6 +166,7 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -207,8 +206,6 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 // Usage:
 // `amino.RegisterConcrete(MyStruct1{}, "com.tendermint/MyStruct1", nil)`
 func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOptions) {
-	cdc.assertNotSealed()
-
 	var pointerPreferred bool
 
 	// Get reflect.Type.
@@ -237,6 +234,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
 		cdc.checkTypeInfoNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
@@ -327,10 +325,7 @@ func getLengthStr(info *TypeInfo) string {
 
 //----------------------------------------
 
-func (cdc *Codec) assertNotSealed() {
-	cdc.mtx.Lock()
-	defer cdc.mtx.Unlock()
-
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
-- 
2.43.0


From e3fcec96465b41e2e339b56ee9b5e29a3779be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 12/31] fix: hold the codec mutex while encoding reads the
 implementers of an interface

---
 binary-encode.go | 2 +-
 codec.go         | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..45b1efa 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -245,7 +245,7 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	needDisamb := false
 	if iinfo.AlwaysDisambiguate {
 		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
+	} else if cdc.hasPrefixConflictRlock(iinfo, cinfo.Prefix) {
 		needDisamb = true
 	}
 	if needDisamb {
diff --git a/codec.go b/codec.go
index a3629c0..e5ec5f3 100644
--- a/codec.go
+++ b/codec.go
@@ -416,6 +416,14 @@ func (cdc *Codec) getTypeInfoFromPrefixRlock(iinfo *TypeInfo, pb PrefixBytes) (i
 	return
 }
 
+// Returns true if more than one implementer of the interface has prefix pb.
+func (cdc *Codec) hasPrefixConflictRlock(iinfo *TypeInfo, pb PrefixBytes) bool {
+	cdc.mtx.RLock()
+	defer cdc.mtx.RUnlock()
+
+	return len(iinfo.Implementers[pb]) > 1
+}
+
 func (cdc *Codec) getTypeInfoFromDisfixRlock(df DisfixBytes) (info *TypeInfo, err error) {
 	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
 	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-- 
2.43.0


From c369c0b21581b9757332f0d959976be673c3e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 13/31] fix: reject registered types that do not implement the
 interface being decoded

---
 binary-decode.go | 4 ++++
 json-decode.go   | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index ccfffbc..7ee6503 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -375,6 +375,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().Implements(rv.Type()) {
+		err = fmt.Errorf("%v does not implement %v", irvSet.Type(), rv.Type())
+		return
+	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..e65a947 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -201,9 +201,6 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	if err != nil {
 		return
 	}
-	// XXX: Check name against interface to make sure that it actually
-	// matches, and return an error if it doesn't.
-
 	// NOTE: Unlike decodeReflectBinaryInterface, we already dealt with nil in decodeReflectJSON.
 	// NOTE: We also "consumed" the interface wrapper by replacing `bz` above.
 
@@ -217,6 +214,10 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().Implements(rv.Type()) {
+		err = errors.Errorf("%v does not implement %v", irvSet.Type(), rv.Type())
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
-- 
2.43.0


From 9e9b8b910a36a6e077a334c41411dc9f141739a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 14/31] fix: do not panic on a lone quote where a quoted JSON
 integer is expected

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index e65a947..8526513 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
-- 
2.43.0


From 2a4c48129ad0b7d34de48922e666d0e1ef8cc3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 15/31] fix: decode JSON struct fields with their own field
 options

---
 json-decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index 8526513..dc6e037 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -363,7 +363,7 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 }
 
 // CONTRACT: rv.CanAddr() is true.
-func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, fopts FieldOptions) (err error) {
+func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, _ FieldOptions) (err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -414,7 +414,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From c0c4bdd3abc700a72035a8649651d1f07f87ad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 16/31] fix: decode JSON maps whose key type is a named string
 type

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index dc6e037..037c14f 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -468,7 +468,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
-- 
2.43.0


From f08975f4f679da1ca288de81086e75ecfc1ed791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 17/31] fix: escape registered names in amino:JSON

---
 amino.go       |  2 +-
 json-encode.go | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/amino.go b/amino.go
index a08db1b..d7041aa 100644
--- a/amino.go
+++ b/amino.go
@@ -515,7 +515,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeDisfixWrapper(w, info.Name)
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index 1d2778c..8361081 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -171,7 +171,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeDisfixWrapper(w, cinfo.Name)
 	if err != nil {
 		return
 	}
@@ -439,8 +439,17 @@ func writeStr(w io.Writer, s string) (err error) {
 	return
 }
 
-func _fmt(s string, args ...interface{}) string {
-	return fmt.Sprintf(s, args...)
+// Writes the part of the disfix wrapper which precedes the value.
+func writeDisfixWrapper(w io.Writer, name string) (err error) {
+	err = writeStr(w, `{"type":`)
+	if err != nil {
+		return
+	}
+	err = invokeStdlibJSONMarshal(w, name)
+	if err != nil {
+		return
+	}
+	return writeStr(w, `,"value":`)
 }
 
 // For json:",omitempty".
-- 
2.43.0


From fb074eacf178f152cf8ef685dfe0d401b7d67d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 18/31] fix: encode JSON maps in a deterministic order

---
 json-encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 8361081..8514382 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/pkg/errors"
@@ -367,7 +368,10 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 	}
 
 	var writeComma = false
-	for _, krv := range rv.MapKeys() {
+	// Sort the keys, since map iteration order is random.
+	var keys = rv.MapKeys()
+	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+	for _, krv := range keys {
 		// Get dereferenced object value and info.
 		var vrv, _, isNil = derefPointers(rv.MapIndex(krv))
 
-- 
2.43.0


From 057b8b9108ae63a073aa3ef2c0c7414391727084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 19/31] fix: do not share slices and map values between a value
 and its deep copy

---
 deep_copy.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..bafd920 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
@@ -118,7 +118,8 @@ func _deepCopy(src, dst reflect.Value) {
 		cpy := reflect.MakeMapWithSize(src.Type(), src.Len())
 		keys := src.MapKeys()
 		for _, key := range keys {
-			val := src.MapIndex(key)
+			val := reflect.New(src.Type().Elem()).Elem()
+			deepCopy(src.MapIndex(key), val)
 			cpy.SetMapIndex(key, val)
 		}
 		dst.Set(cpy)
-- 
2.43.0


From ee65f06ee5dfdd66e97bea21a3871df4206472e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 20/31] fix: do not panic when deep copying pointers to nil or
 fields with MarshalAmino

---
 deep_copy.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index bafd920..3cf6f82 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		deepCopy(src.Elem(), cpy.Elem())
 		dst.Set(cpy)
 		return
 
@@ -200,8 +200,6 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if !canAminoCopy(src) {
 		return false
 	}
-	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
 	ma := src.MethodByName("MarshalAmino")
 	ua := dst.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
-- 
2.43.0


From 5bfba196d819ef00863d20f4caa2d6bc85ca7234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 21/31] fix: do not panic or loop forever when scanning
 malformed bytes with aminoscan

---
 cmd/aminoscan/aminoscan.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 03aaefd..88529ed 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -77,7 +77,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 	case amino.Typ3_4Byte:
 		s, n, err = scan4Byte(bz, indent)
 	default:
-		panic("should not happen")
+		err = fmt.Errorf("invalid typ3 %v", typ)
 	}
 	return
 }
@@ -96,7 +96,7 @@ func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	// Then try Uvarint.
 	okU64 := true
 	u64, _n := binary.Uvarint(bz)
-	if n != _n {
+	if n != _n || _n <= 0 {
 		n = 0
 		okU64 = false
 	}
@@ -132,16 +132,15 @@ func scan8Byte(bz []byte, indent string) (s string, n int, err error) {
 func scanByteLength(bz []byte, indent string) (s string, n int, err error) {
 	// Read the length.
 	l64, _n := binary.Uvarint(bz)
-	if n < 0 {
-		n = 0
+	if _n <= 0 {
 		err = errors.New("error decoding uvarint")
 		return
 	}
-	length := int(l64)
-	if length >= len(bz) {
-		err = errors.New("while reading 8byte field, EOF was encountered")
+	if l64 > uint64(len(bz)-_n) {
+		err = errors.New("while reading byte-length field, EOF was encountered")
 		return
 	}
+	length := int(l64)
 	s = Cyan(fmt.Sprintf("%X", bz[:_n]))
 	slide(&bz, &n, _n)
 	// Read the remaining bytes.
@@ -175,7 +174,7 @@ func scanStruct(bz []byte, indent string, isRoot bool) (s string, n int, err err
 func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, err error) {
 	var u64 uint64
 	u64, n = binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
-- 
2.43.0


From 0e5d76079527d41b9afef12b95db2bbfa3c64548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 22/31] fix: decode the empty byteslice that encodes a nil
 interface

---
 binary-decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 7ee6503..9712ccd 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -351,6 +351,12 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		// This is a trick for debuggability -- we slide on &n more later.
 		n += _n - len(buf)
 		bz = buf
+
+		// An empty byteslice denotes a nil interface.
+		if len(bz) == 0 {
+			rv.Set(iinfo.ZeroValue)
+			return
+		}
 	}
 
 	// Consume disambiguation / prefix bytes.
-- 
2.43.0


From c7c96a2a986494a591c2ad1eaec8dd78b0bdb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 23/31] fix: encode top-level lists with the field number that
 decoding expects

---
 amino.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index d7041aa..72420fc 100644
--- a/amino.go
+++ b/amino.go
@@ -220,7 +220,7 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From a78f7c302ed1009803d733b0802db0cf73e5d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 24/31] fix: encode lists of byte lists instead of silently
 dropping them

---
 binary-encode.go | 56 +++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index 45b1efa..4bd05ed 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -67,48 +67,18 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 	case reflect.Array:
 		if info.Type.Elem().Kind() == reflect.Uint8 {
 			err = cdc.encodeReflectBinaryByteArray(w, info, rv, fopts)
-		} else if kind := info.Type.Elem().Kind(); kind == reflect.Slice || kind == reflect.Array {
-			// for proto3 compatibility, we do not allow multidimensional arrays,
-			// unless the elements involved are bytes (e.g. [][]byte)
-			if info.Type.Elem().Elem().Kind() != reflect.Uint8 { // byte is an alias for uint8
-				elem := info.Type.Elem()
-				for {
-					if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
-						elem = elem.Elem()
-						continue
-					}
-					if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
-						break
-					}
-					err = errors.New("multidimensional arrays not allowed")
-					break
-				}
-			}
+		} else if isMultidimensional(info.Type) {
+			err = errors.New("multidimensional arrays not allowed")
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
 
 	case reflect.Slice:
-		switch info.Type.Elem().Kind() {
-
-		case reflect.Uint8:
+		if info.Type.Elem().Kind() == reflect.Uint8 {
 			err = cdc.encodeReflectBinaryByteSlice(w, info, rv, fopts)
-		case reflect.Slice, reflect.Array:
-			// for proto3 compatibility, we do not allow multidimensional slices,
-			// unless the elements involved are bytes (e.g. [][]byte)
-			elem := info.Type.Elem()
-			for {
-				if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
-					elem = elem.Elem()
-					continue
-				}
-				if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
-					break
-				}
-				err = errors.New("multidimensional slices not allowed")
-				break
-			}
-		default:
+		} else if isMultidimensional(info.Type) {
+			err = errors.New("multidimensional slices not allowed")
+		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
 
@@ -477,6 +447,20 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 //----------------------------------------
 // Misc.
 
+// For proto3 compatibility, we do not allow multidimensional arrays or slices,
+// unless the elements involved are bytes (e.g. [][]byte).
+// CONTRACT: rt.Kind() is reflect.Array or reflect.Slice.
+func isMultidimensional(rt reflect.Type) bool {
+	rt = rt.Elem()
+	if rt.Kind() != reflect.Slice && rt.Kind() != reflect.Array {
+		return false
+	}
+	for rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array {
+		rt = rt.Elem()
+	}
+	return rt.Kind() != reflect.Uint8 // byte is an alias for uint8
+}
+
 // Write field key.
 func encodeFieldNumberAndTyp3(w io.Writer, num uint32, typ Typ3) (err error) {
 	if (typ & 0xF8) != 0 {
-- 
2.43.0


From dea1cb34f38a80204b471da0990fdcb877981897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 25/31] fix: decode the frame around a registered list
 unmarshalled into an interface

---
 binary-decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 9712ccd..0651cfe 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -381,6 +381,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	var cbare = true
 	if !irvSet.Type().Implements(rv.Type()) {
 		err = fmt.Errorf("%v does not implement %v", irvSet.Type(), rv.Type())
 		return
@@ -410,10 +411,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 				typWanted, fnum, cinfo.Type, typ)
 		}
 		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From 3536b47f4d0da0365099cdd6824458a229bfbe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 26/31] fix: decode empty values that are encoded as no bytes
 at all

---
 amino.go         | 42 +++++++++++++++++++++++-------------------
 binary-decode.go | 38 +++++++++++++++++++++-----------------
 2 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/amino.go b/amino.go
index 72420fc..9276c42 100644
--- a/amino.go
+++ b/amino.go
@@ -404,28 +404,32 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 	isKnownType := (info.Type.Kind() != reflect.Map) && (info.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(info) &&
 		!isPointerToStructOrToRepeatedStruct(rv, rt) &&
-		len(bz) > 0 &&
 		(rv.Kind() != reflect.Interface) &&
 		isKnownType {
-		var (
-			fnum      uint32
-			typ       Typ3
-			nFnumTyp3 int
-		)
-		fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
-		if err != nil {
-			return errors.Wrap(err, "could not decode field number and type")
-		}
-		if fnum != 1 {
-			return fmt.Errorf("expected field number: 1; got: %v", fnum)
-		}
-		typWanted := typeToTyp3(info.Type, FieldOptions{})
-		if typ != typWanted {
-			return fmt.Errorf("expected field type %v for # %v of %v, got %v",
-				typWanted, fnum, info.Type, typ)
+		if len(bz) > 0 {
+			var (
+				fnum      uint32
+				typ       Typ3
+				nFnumTyp3 int
+			)
+			fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
+			if err != nil {
+				return errors.Wrap(err, "could not decode field number and type")
+			}
+			if fnum != 1 {
+				return fmt.Errorf("expected field number: 1; got: %v", fnum)
+			}
+			typWanted := typeToTyp3(info.Type, FieldOptions{})
+			if typ != typWanted {
+				return fmt.Errorf("expected field type %v for # %v of %v, got %v",
+					typWanted, fnum, info.Type, typ)
+			}
+
+			slide(&bz, &nWrap, nFnumTyp3)
+		} else {
+			// An empty value is not written at all, see writeFieldIfNotEmpty.
+			bz = []byte{0x00}
 		}
-
-		slide(&bz, &nWrap, nFnumTyp3)
 		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
 	}
 
diff --git a/binary-decode.go b/binary-decode.go
index 0651cfe..c1d68ec 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -389,28 +389,32 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
-		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
 		bare {
-		var (
-			fnum      uint32
-			typ       Typ3
-			nFnumTyp3 int
-		)
-		fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
-		if err != nil {
-			return n, errors.Wrap(err, "could not decode field number and type")
-		}
-		if fnum != 1 {
-			return n, fmt.Errorf("expected field number: 1; got: %v", fnum)
-		}
 		typWanted := typeToTyp3(cinfo.Type, FieldOptions{})
-		if typ != typWanted {
-			return n, fmt.Errorf("expected field type %v for # %v of %v, got %v",
-				typWanted, fnum, cinfo.Type, typ)
+		if len(bz) > 0 {
+			var (
+				fnum      uint32
+				typ       Typ3
+				nFnumTyp3 int
+			)
+			fnum, typ, nFnumTyp3, err = decodeFieldNumberAndTyp3(bz)
+			if err != nil {
+				return n, errors.Wrap(err, "could not decode field number and type")
+			}
+			if fnum != 1 {
+				return n, fmt.Errorf("expected field number: 1; got: %v", fnum)
+			}
+			if typ != typWanted {
+				return n, fmt.Errorf("expected field type %v for # %v of %v, got %v",
+					typWanted, fnum, cinfo.Type, typ)
+			}
+			slide(&bz, &n, nFnumTyp3)
+		} else {
+			// An empty value is not written at all, see writeFieldIfNotEmpty.
+			bz, n = []byte{0x00}, n-1
 		}
-		slide(&bz, &n, nFnumTyp3)
 		cbare = typWanted != Typ3ByteLength
 	}
 
-- 
2.43.0


From f8465b654d46b00861f058629529626fc613c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 27/31] fix: lists of named byte types no longer panic in
 reflect.Copy or Set

---
 binary-decode.go | 6 ++++--
 binary-encode.go | 6 ++++--
 json-decode.go   | 4 +++-
 json-encode.go   | 6 ++++--
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index c1d68ec..e106a78 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -474,7 +474,8 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	// NOTE: The element type may be a named byte type.
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -651,7 +652,8 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		// NOTE: The slice or element type may be named.
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index 4bd05ed..ab98f6d 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -260,8 +260,10 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 	if rv.CanAddr() {
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
-		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		// NOTE: The element type may be a named byte type.
+		var arv = reflect.New(rv.Type()).Elem()
+		arv.Set(rv)
+		byteslice = arv.Slice(0, length).Bytes()
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index 037c14f..2142fdb 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -258,8 +258,10 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 		if len(buf) != length {
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
+			return
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		// NOTE: The element type may be a named byte type.
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
diff --git a/json-encode.go b/json-encode.go
index 8514382..93f8958 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -221,8 +221,10 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 		if rv.CanAddr() {
 			bz = rv.Slice(0, length).Bytes()
 		} else {
-			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+			// NOTE: The element type may be a named byte type.
+			var arv = reflect.New(rv.Type()).Elem()
+			arv.Set(rv)
+			bz = arv.Slice(0, length).Bytes()
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
-- 
2.43.0


From 7042be588236e695879c4ce6e1a5efefaac7854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 28/31] fix: JSON map keys are written as strings, whatever
 methods their type has

---
 json-encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 93f8958..e0c5324 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -386,7 +386,7 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 			writeComma = false //nolint:ineffassign
 		}
 		// Write field name.
-		err = invokeStdlibJSONMarshal(w, krv.Interface())
+		err = invokeStdlibJSONMarshal(w, krv.String())
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 8ab2039c83c6a59254dbeb5a3d1dc56d71cd2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:52 +0000
Subject: [PATCH 29/31] fix: interface passed by pointer to MarshalBinaryBare
 is wrapped in a field that UnmarshalBinaryBare rejects

---
 amino.go         | 3 ++-
 binary-encode.go | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 9276c42..fcdb119 100644
--- a/amino.go
+++ b/amino.go
@@ -216,7 +216,8 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 	// in the case of of a repeated struct (e.g. type Alias []SomeStruct),
 	// we do not need to prepend with `(field_number << 3) | wire_type` as this
 	// would need to be done for each struct and not only for the first.
-	if rv.Kind() != reflect.Struct && !isStructOrRepeatedStruct(info) {
+	// An interface is not wrapped either, as its contents are.
+	if rv.Kind() != reflect.Struct && rv.Kind() != reflect.Interface && !isStructOrRepeatedStruct(info) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
diff --git a/binary-encode.go b/binary-encode.go
index ab98f6d..826b2cd 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -232,7 +232,13 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	}
 
 	// Write actual concrete value.
-	err = cdc.encodeReflectBinary(buf, cinfo, crv, fopts, true)
+	if bare && !isStructOrRepeatedStruct(cinfo) {
+		// Written as MarshalBinaryBare writes the concrete value.
+		cbare := typeToTyp3(cinfo.Type, FieldOptions{}) != Typ3ByteLength
+		err = cdc.writeFieldIfNotEmpty(buf, 1, cinfo, FieldOptions{}, fopts, crv, false, cbare)
+	} else {
+		err = cdc.encodeReflectBinary(buf, cinfo, crv, fopts, true)
+	}
 	if err != nil {
 		return
 	}
-- 
2.43.0


From aebd89d0ea2d946286a8fbd872ce2ab5e5422f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 30/31] fix: nil pointer field tagged write_empty makes binary
 encoding panic

---
 binary-encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index 826b2cd..9987fd5 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -420,9 +420,10 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			var frv = rv.Field(field.Index)
 			var frvIsPtr = frv.Kind() == reflect.Ptr
 			var dfrv, isDefault = isDefaultValue(frv)
-			if isDefault && !field.WriteEmpty {
+			if isDefault && !(field.WriteEmpty && dfrv.IsValid()) {
 				// Do not encode default value fields
-				// (except when `amino:"write_empty"` is set).
+				// (except when `amino:"write_empty"` is set,
+				// unless it is a nil pointer).
 				continue
 			}
 			if field.UnpackedList {
-- 
2.43.0


From 89f2010d50c6e56682aaae5bef82ea9f41c22b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:47 +0000
Subject: [PATCH 31/31] fix: interface with a MarshalJSON method encoded as
 JSON without the name of its type, or panics when nil

---
 json-encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index e0c5324..b22f712 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -56,7 +56,9 @@ func (cdc *Codec) encodeReflectJSON(w io.Writer, info *TypeInfo, rv reflect.Valu
 			err = invokeMarshalJSON(w, rv.Addr())
 			return
 		}
-	} else if rv.Type().Implements(jsonMarshalerType) {
+	} else if rv.Kind() != reflect.Interface && rv.Type().Implements(jsonMarshalerType) {
+		// NOTE: An interface is written below, with the name of the
+		// type it holds (if any).
 		err = invokeMarshalJSON(w, rv)
 		return
 	}
-- 
2.43.0

