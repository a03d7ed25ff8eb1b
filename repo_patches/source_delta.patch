From c32b16b03a131c071aa8e5f6063c62eb1ff38a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 01/27] fix: detect overflow in I8, I16 and I32 beyond the
 first wrap-around

---
 internal/atoi/atoi.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/atoi/atoi.go b/internal/atoi/atoi.go
index 8ffc771..616994c 100644
--- a/internal/atoi/atoi.go
+++ b/internal/atoi/atoi.go
@@ -34,6 +34,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 3:
 			return -(d(1)*1e1 + d(2)), false
 		case 4: // This case can overflow
+			if s[1]-'0' > 1 {
+				return 0, true
+			}
 			if n = -(d(1)*1e2 + d(2)*1e1 + d(3)); n > 0 {
 				return 0, true
 			}
@@ -46,6 +49,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 2:
 			return d(0)*1e1 + d(1), false
 		case 3: // This case can overflow
+			if s[0]-'0' > 1 {
+				return 0, true
+			}
 			if n = d(0)*1e2 + d(1)*1e1 + d(2); n < 0 {
 				return 0, true
 			}
@@ -97,6 +103,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 5:
 			return -(d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)), false
 		case 6: // This case can overflow
+			if s[1]-'0' > 3 {
+				return 0, true
+			}
 			n = -(d(1)*1e4 + d(2)*1e3 + d(3)*1e2 + d(4)*1e1 + d(5))
 			if n > 0 {
 				return 0, true
@@ -114,6 +123,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 4:
 			return d(0)*1e3 + d(1)*1e2 + d(2)*1e1 + d(3), false
 		case 5: // This case can overflow
+			if s[0]-'0' > 3 {
+				return 0, true
+			}
 			n = d(0)*1e4 + d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)
 			if n < 0 {
 				return 0, true
@@ -214,6 +226,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(7)*1e2 + d(8)*1e1 +
 				d(9)), false
 		case 11: // This case can overflow
+			if s[1]-'0' > 2 {
+				return 0, true
+			}
 			n = d(1)*1e9 + d(2)*1e8 +
 				d(3)*1e7 + d(4)*1e6 +
 				d(5)*1e5 + d(6)*1e4 +
@@ -258,6 +273,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(6)*1e2 + d(7)*1e1 +
 				d(8), false
 		case 10: // This case can overflow
+			if s[0]-'0' > 2 {
+				return 0, true
+			}
 			n = d(0)*1e9 + d(1)*1e8 +
 				d(2)*1e7 + d(3)*1e6 +
 				d(4)*1e5 + d(5)*1e4 +
-- 
2.43.0


From dab508071c74b929be88ad70720ea89dcd942bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 02/27] fix: decode UTF-16 surrogate pairs in escaped strings

---
 internal/unescape/unescape.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index c967696..d0513c2 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -45,7 +45,18 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 				buf = append(buf, byte(r))
 			case r <= rune2Max:
 				buf = append(buf, t2|byte(r>>6), tx|byte(r)&maskx)
-			case r > maxRune, surrogateMin <= r && r <= surrogateMax:
+			case surrogateMin <= r && r <= surrogateMax:
+				if r < surrogateLow && len(s) >= 12 && s[6] == '\\' && s[7] == 'u' {
+					r2 := uint32(lut[s[8]]<<12 + lut[s[9]]<<8 + lut[s[10]]<<4 + lut[s[11]])
+					if surrogateLow <= r2 && r2 <= surrogateMax {
+						// Valid UTF-16 surrogate pair
+						r = (r-surrogateMin)<<10 + (r2 - surrogateLow) + surrogateSelf
+						buf = append(buf, t4|byte(r>>18), tx|byte(r>>12)&maskx,
+							tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
+						s = s[6:]
+						break
+					}
+				}
 				buf = append(buf, RuneError...) // Error placeholder rune
 			default:
 				buf = append(buf, t3|byte(r>>12), tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
@@ -130,13 +141,13 @@ const (
 	// Code points in the surrogate range are not valid for UTF-8.
 	surrogateMin, surrogateMax = 0xD800, 0xDFFF
 
+	// First code point of the low surrogates and first supplementary code point.
+	surrogateLow, surrogateSelf = 0xDC00, 0x10000
+
 	tx, t2, t3, t4               = 0b10000000, 0b11000000, 0b11100000, 0b11110000
 	maskx                        = 0b00111111
 	rune1Max, rune2Max, rune3Max = 1<<7 - 1, 1<<11 - 1, 1<<16 - 1
 
-	// maxRune is the maximum valid Unicode code point.
-	maxRune = '\U0010FFFF'
-
 	// RuneError is the "error" rune or "Unicode replacement character".
 	RuneError = "\uFFFD"
 )
-- 
2.43.0


From e09687a070ca4d7cfb98841d6a1e425173b52875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 03/27] fix: reject empty and partially numeric text in quoted
 numbers and integer map keys

---
 internal/jsonnum/jsonnum.go |  5 ++
 jscandec.go                 | 91 +++++++++++++++++++------------------
 2 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/internal/jsonnum/jsonnum.go b/internal/jsonnum/jsonnum.go
index aa8f823..ec84e32 100644
--- a/internal/jsonnum/jsonnum.go
+++ b/internal/jsonnum/jsonnum.go
@@ -13,6 +13,11 @@ const (
 func ReadNumber[S ~string | ~[]byte](s S) (trailing S, rc ReturnCode) {
 	var i int
 
+	if len(s) < 1 {
+		// Expected at least one digit
+		return s, ReturnCodeErr
+	}
+
 	if s[0] == '-' {
 		// Signed
 		s = s[1:]
diff --git a/jscandec.go b/jscandec.go
index f69ede0..6b1abe0 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1051,7 +1051,8 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeNumber:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if _, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc == jsonnum.ReturnCodeErr || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1059,8 +1060,8 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeFloat32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc == jsonnum.ReturnCodeErr {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc == jsonnum.ReturnCodeErr || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1072,8 +1073,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc == jsonnum.ReturnCodeErr {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc == jsonnum.ReturnCodeErr || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1085,8 +1086,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1098,8 +1099,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1111,8 +1112,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1124,8 +1125,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1137,8 +1138,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1150,8 +1151,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1163,8 +1164,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1176,8 +1177,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1189,8 +1190,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1202,8 +1203,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
-					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
+					tail, rc := jsonnum.ReadNumber(tv)
+					if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -2379,8 +2380,8 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2392,8 +2393,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2405,8 +2406,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2418,8 +2419,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2431,8 +2432,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2444,8 +2445,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2457,8 +2458,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2470,8 +2471,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2483,8 +2484,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
@@ -2496,8 +2497,8 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						_, rc := jsonnum.ReadNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
+						tail, rc := jsonnum.ReadNumber(key)
+						if rc != jsonnum.ReturnCodeInteger || len(tail) != 0 || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
-- 
2.43.0


From ff12cb94c44b10dcec0d218fe421ddfe6820d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/27] fix: skip the entire object when decoding into an empty
 struct

---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 6b1abe0..32db409 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2101,7 +2101,7 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
-					ti = tokens[ti].End // Skip object value
+					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
-- 
2.43.0


From 72fb47854b0e2cc5c6c2240bb20cec71b9c045e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 05/27] fix: skip the entire value of unknown fields

---
 jscandec.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 32db409..36e53c6 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2318,22 +2318,15 @@ func (d *Decoder[S, T]) Decode(
 							}
 							// Skip value, go to the next key
 							ti++
-							for l := 0; ; ti++ {
-								switch tokens[ti].Type {
-								case jscan.TokenTypeKey:
-									if l < 1 {
-										continue SCAN_KEYVALS
-									}
-								case jscan.TokenTypeObject:
-									l++
-								case jscan.TokenTypeObjectEnd:
-									l--
-									if l < 1 {
-										ti--
-										break SCAN_KEYVALS
-									}
-								}
+							switch tokens[ti].Type {
+							case jscan.TokenTypeObject, jscan.TokenTypeArray:
+								ti = tokens[ti].End
+							}
+							if tokens[ti+1].Type == jscan.TokenTypeKey {
+								ti++
+								continue SCAN_KEYVALS
 							}
+							break SCAN_KEYVALS // End of object
 						}
 						si = frameIndex
 						if si == noParentFrame {
-- 
2.43.0


From 37a2ae18558110a13a50f1444979f8400440ef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 06/27] fix: advance the container after decoding a pointer
 element

---
 jscandec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jscandec.go b/jscandec.go
index 36e53c6..1254e00 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2632,6 +2632,7 @@ func (d *Decoder[S, T]) Decode(
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
 					si--
+					goto ON_VAL_END
 				case ExpectTypeArray:
 					d.stackExp[si].Len++
 					if d.stackExp[si].Len >= d.stackExp[si].Cap {
-- 
2.43.0


From add776c409570c08a98a2e9904cc901f7db918fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 07/27] fix: decode into the existing value of non-nil pointers

---
 jscandec.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 1254e00..f789036 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -359,8 +359,7 @@ func (t ExpectType) String() string {
 // otherwise returns true.
 func (t ExpectType) isElemComposite() bool {
 	switch t {
-	case ExpectTypePtr,
-		ExpectTypeArrayLen0, // Zero-length arrays require no memory
+	case ExpectTypeArrayLen0, // Zero-length arrays require no memory
 		ExpectTypeEmptyStruct,
 		ExpectTypeBool,
 		ExpectTypeStr,
@@ -2671,13 +2670,16 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				si++
-				if d.stackExp[si].Size == 0 {
-					*(*unsafe.Pointer)(p) = emptyStructAddr
-				} else {
-					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-					d.stackExp[si].Dest = dp
+				dp := *(*unsafe.Pointer)(p)
+				if dp == nil {
+					if d.stackExp[si].Size == 0 {
+						dp = emptyStructAddr
+					} else {
+						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
+					}
 					*(*unsafe.Pointer)(p) = dp
 				}
+				d.stackExp[si].Dest = dp
 			}
 			continue
 
-- 
2.43.0


From b84053e04a4e07c1069c156582477ba955bbc39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 08/27] fix: zero array elements missing in the JSON array

---
 jscandec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index f789036..10c63a8 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1333,6 +1333,12 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
+					// Zero the elements that are not present in the JSON array.
+					for i := tokens[ti].Elements; i < d.stackExp[si+1].Cap; i++ {
+						typedmemclr(d.stackExp[si+1].Typ, unsafe.Pointer(
+							uintptr(p)+uintptr(i)*d.stackExp[si+1].Size,
+						))
+					}
 					if tokens[ti].Elements < 1 {
 						ti += 2 // Skip over closing TokenArrayEnd
 						// Empty array, no need to allocate memory.
-- 
2.43.0


From 5d695f676008938eb3716fc695608fdb2cecb0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 09/27] fix: reset the recursion state when Decode returns an
 error

---
 jscandec.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 10c63a8..b81da4f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -716,7 +716,16 @@ func (d *Decoder[S, T]) Decode(
 ) (errIndex int, err error) {
 	defer func() {
 		for i := range d.stackExp {
-			d.stackExp[i].Dest = nil
+			f := &d.stackExp[i]
+			f.Dest = nil
+			if len(f.RecursionStack) > 0 {
+				// Decoding was aborted inside of a recursive value.
+				f.Offset = f.RecursionStack[0].Offset
+				for j := range f.RecursionStack {
+					f.RecursionStack[j] = recursionStackFrame{}
+				}
+				f.RecursionStack = f.RecursionStack[:0]
+			}
 		}
 	}()
 
-- 
2.43.0


From aa0db9376ce7f5d7869b99ef80c40898e1b96695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 10/27] fix: restore the full decoder state after recursive
 values

---
 jscandec.go | 165 ++++++++++++++++++++++------------------------------
 1 file changed, 71 insertions(+), 94 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index b81da4f..851c378 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -398,6 +398,18 @@ type recursionStackFrame struct {
 	// Offset stores the offset for the recursive frame to be reset to.
 	Offset uintptr
 
+	// ContainerDest stores the destination pointer for the recursive container
+	// frame to be reset to.
+	ContainerDest unsafe.Pointer
+
+	// ContainerOffset stores the offset for the recursive container frame
+	// to be reset to.
+	ContainerOffset uintptr
+
+	// ContainerLen stores the length for the recursive container frame
+	// to be reset to.
+	ContainerLen int
+
 	// ContainerFrame stores the index of the recursive container frame.
 	ContainerFrame uint32
 }
@@ -1250,8 +1262,12 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSlice, ExpectTypeSliceRecur:
 					// Skip
 					*(*[]any)(p) = nil
-				case ExpectTypeStruct, ExpectTypeStructRecur:
+				case ExpectTypeStruct:
+					// Skip
+				case ExpectTypeStructRecur:
 					// Skip
+					ti++
+					goto ON_RECUR_OBJ_END
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
 				case ExpectTypeBool:
@@ -1427,11 +1443,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 						*(*sliceHeader)(p) = emptySlice
 						ti += 2
-						if len(d.stackExp[recursiveFrame].RecursionStack) < 1 {
-							goto ON_VAL_END
-						}
-						si = uint32(recursiveFrame)
-						continue
+						goto ON_VAL_END
 					}
 
 					var dp unsafe.Pointer
@@ -1459,13 +1471,7 @@ func (d *Decoder[S, T]) Decode(
 					ti++
 
 					// Push recursion stack
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
+					d.pushRecursion(si)
 
 					si = uint32(recursiveFrame)
 					d.stackExp[si].Dest = dp
@@ -2135,16 +2141,9 @@ func (d *Decoder[S, T]) Decode(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
 
-					siPointer := si
-					si = uint32(d.stackExp[si].RecurFrame)
 					// Push recursion stack
-					d.stackExp[si].RecursionStack = append(
-						d.stackExp[si].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[si].Dest,
-							Offset:         d.stackExp[si].Offset,
-							ContainerFrame: siPointer,
-						},
-					)
+					d.pushRecursion(si)
+					si = uint32(d.stackExp[si].RecurFrame)
 
 					var dp unsafe.Pointer
 					if *(*unsafe.Pointer)(p) != nil {
@@ -2154,6 +2153,7 @@ func (d *Decoder[S, T]) Decode(
 						*(*unsafe.Pointer)(p) = dp
 					}
 					d.stackExp[si].Dest = dp
+					d.stackExp[si].Offset = 0
 
 					if tokens[ti].Elements == 0 {
 						ti += 2
@@ -2167,15 +2167,6 @@ func (d *Decoder[S, T]) Decode(
 					ti++
 
 				case ExpectTypeMapRecur:
-					// Push recursion stack
-					recursiveFrame := d.stackExp[si].RecurFrame
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2189,6 +2180,8 @@ func (d *Decoder[S, T]) Decode(
 						ti += 2
 						goto ON_VAL_END
 					}
+					// Push recursion stack
+					d.pushRecursion(si)
 					ti++
 
 				case ExpectTypeMap:
@@ -2520,6 +2513,7 @@ func (d *Decoder[S, T]) Decode(
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
 						recursiveFrame := d.stackExp[si].RecurFrame
 						si = uint32(recursiveFrame)
+						d.stackExp[si].Offset = 0
 					} else {
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
@@ -2545,57 +2539,21 @@ func (d *Decoder[S, T]) Decode(
 				switch d.stackExp[si].Type {
 				case ExpectTypeStruct:
 					goto ON_VAL_END
+				case ExpectTypeMap:
+					goto ON_VAL_END
 				case ExpectTypeMapRecur:
-					recursiveFrame := d.stackExp[si].RecurFrame
-					recurStack := d.stackExp[recursiveFrame].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						si = uint32(d.stackExp[si].RecurFrame)
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[recursiveFrame].RecursionStack[topIndex]
-					d.stackExp[recursiveFrame].Dest = resetTo.Dest
-					d.stackExp[recursiveFrame].Offset = resetTo.Offset
-					fields := d.stackExp[recursiveFrame].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
 					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[recursiveFrame].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[si].ParentFrameIndex
-					continue
+					si = d.popRecursion(uint32(d.stackExp[si].RecurFrame))
+					goto ON_VAL_END
 				}
 				goto ON_RECUR_OBJ_END
 
 			case jscan.TokenTypeArrayEnd:
 				ti++
-				if d.stackExp[si].Type == ExpectTypeStructRecur {
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In slice of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[si].RecursionStack[topIndex]
-					d.stackExp[si].Dest = resetTo.Dest
-					d.stackExp[si].Offset = resetTo.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
+				if l := len(d.stackExp[si].RecursionStack); l > 0 {
 					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
-					continue
+					si = d.popRecursion(si)
+					goto ON_VAL_END
 				}
 				si--
 				goto ON_VAL_END
@@ -2609,33 +2567,17 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSliceRecur:
 					d.stackExp[si].Offset += d.stackExp[si].Size
 				case ExpectTypePtrRecur:
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					d.stackExp[si].Dest = top.Dest
-					d.stackExp[si].Offset = top.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = top.Dest
-					}
-
 					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[top.ContainerFrame].ParentFrameIndex
-					continue
+					si = d.popRecursion(si)
+					goto ON_VAL_END
 
 				case ExpectTypeMapRecur:
 					si = top.ContainerFrame
 					// Set the top stack destination so the next key gets assigned to it.
 					// Otherwise we'll be in the destination of the previously assigned
 					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.Dest
+					d.stackExp[si].Dest = top.ContainerDest
+					d.stackExp[si].Offset = top.ContainerOffset
 				}
 				continue
 			}
@@ -2735,6 +2677,41 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
+// pushRecursion pushes the current state of the recursive container frame and the
+// recursive struct frame it refers to onto the recursion stack.
+func (d *Decoder[S, T]) pushRecursion(containerFrame uint32) {
+	c := &d.stackExp[containerFrame]
+	r := &d.stackExp[c.RecurFrame]
+	r.RecursionStack = append(r.RecursionStack, recursionStackFrame{
+		Dest:            r.Dest,
+		Offset:          r.Offset,
+		ContainerDest:   c.Dest,
+		ContainerOffset: c.Offset,
+		ContainerLen:    c.Len,
+		ContainerFrame:  containerFrame,
+	})
+}
+
+// popRecursion resets the recursive struct frame and the recursive container frame
+// to the state at the time of pushRecursion and returns the container frame index.
+func (d *Decoder[S, T]) popRecursion(recursiveFrame uint32) (containerFrame uint32) {
+	r := &d.stackExp[recursiveFrame]
+	topIndex := len(r.RecursionStack) - 1
+	top := r.RecursionStack[topIndex]
+	r.RecursionStack[topIndex] = recursionStackFrame{}
+	r.RecursionStack = r.RecursionStack[:topIndex]
+
+	r.Dest, r.Offset = top.Dest, top.Offset
+	for i := range r.Fields {
+		d.stackExp[r.Fields[i].FrameIndex].Dest = unsafe.Pointer(
+			uintptr(top.Dest) + top.Offset,
+		)
+	}
+	c := &d.stackExp[top.ContainerFrame]
+	c.Dest, c.Offset, c.Len = top.ContainerDest, top.ContainerOffset, top.ContainerLen
+	return top.ContainerFrame
+}
+
 type sliceHeader struct {
 	Data     unsafe.Pointer
 	Len, Cap uintptr
-- 
2.43.0


From 7d04bf8064a7e8698af73d0bfe19978dbd8a3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 11/27] fix: parse all options of json struct tags

---
 append_type_stack.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 575e0d1..7018df0 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -318,20 +318,19 @@ func appendTypeToStack[S []byte | string](
 			f := t.Field(i)
 			name := f.Name
 			optionString := false
-			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				name = jsonTag
-				if i := strings.IndexByte(jsonTag, ','); i != -1 {
-					name = jsonTag[:i]
-					optionName := jsonTag[i+1:]
-					optionString = optionName == "string"
+			if jsonTag := f.Tag.Get("json"); jsonTag == "-" {
+				// Ignore this field.
+				continue
+			} else if jsonTag != "" {
+				var tagOptions, optionName string
+				name, tagOptions, _ = strings.Cut(jsonTag, ",")
+				for tagOptions != "" {
+					optionName, tagOptions, _ = strings.Cut(tagOptions, ",")
+					optionString = optionString || optionName == "string"
 				}
-				switch name {
-				case "":
-					// Either there was no tag or no name specified in it.
+				if name == "" {
+					// No name specified in the tag.
 					name = f.Name
-				case "-":
-					// Ignore this field.
-					continue
 				}
 			}
 
-- 
2.43.0


From f7937a2e3d71af68e6a73b0aeb18d8fded0f5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 12/27] fix: ignore unexported struct fields

---
 append_type_stack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 7018df0..c3a241f 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -316,6 +316,10 @@ func appendTypeToStack[S []byte | string](
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
+			if !f.IsExported() && !f.Anonymous {
+				// Ignore unexported fields.
+				continue
+			}
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag == "-" {
-- 
2.43.0


From b32cc19eb739d1ecc9147d2e71c2ce54a8aac62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 13/27] fix: return an error for unsupported map key types

---
 append_type_stack.go | 38 ++++++++++++++++++++++++++++++++++++--
 jscandec.go          |  2 +-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index c3a241f..c395e8a 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -244,7 +244,7 @@ func appendTypeToStack[S []byte | string](
 					{
 						newAtIndex := len(stack)
 						var err error
-						stack, err = appendTypeToStack(stack, t.Key(), options)
+						stack, err = appendMapKeyToStack(stack, t.Key(), options)
 						if err != nil {
 							return nil, err
 						}
@@ -278,7 +278,7 @@ func appendTypeToStack[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStack(stack, t.Key(), options); err != nil {
+			if stack, err = appendMapKeyToStack(stack, t.Key(), options); err != nil {
 				return nil, err
 			}
 			// Link map key to the map frame.
@@ -547,6 +547,40 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// appendMapKeyToStack appends the frame of map key type t and returns an error
+// if t is not supported as map key type.
+func appendMapKeyToStack[S []byte | string](
+	stack []stackFrame[S], t reflect.Type, options *InitOptions,
+) ([]stackFrame[S], error) {
+	switch t.Kind() {
+	case reflect.Interface, reflect.Pointer:
+		return nil, fmt.Errorf("unsupported map key type: %v", t)
+	}
+	if determineTextUnmarshalerSupport(t) != interfaceSupportNone {
+		return append(stack, stackFrame[S]{
+			Type:             ExpectTypeTextUnmarshaler,
+			Typ:              getTyp(t),
+			RType:            t,
+			Size:             t.Size(),
+			ParentFrameIndex: noParentFrame,
+		}), nil
+	}
+	keyIndex := len(stack)
+	stack, err := appendTypeToStack(stack, t, options)
+	if err != nil {
+		return nil, err
+	}
+	switch stack[keyIndex].Type {
+	case ExpectTypeStr, ExpectTypeNumber,
+		ExpectTypeInt, ExpectTypeInt8, ExpectTypeInt16,
+		ExpectTypeInt32, ExpectTypeInt64,
+		ExpectTypeUint, ExpectTypeUint8, ExpectTypeUint16,
+		ExpectTypeUint32, ExpectTypeUint64:
+		return stack, nil
+	}
+	return nil, fmt.Errorf("unsupported map key type: %v", t)
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
diff --git a/jscandec.go b/jscandec.go
index 851c378..1cfa905 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2371,7 +2371,7 @@ func (d *Decoder[S, T]) Decode(
 						pKey := v.UnsafePointer()
 						pNewData = mapassign(typMap, pMap, noescape(pKey))
 
-					case ExpectTypeStr:
+					case ExpectTypeStr, ExpectTypeNumber:
 						keyStr := unescape.Valid[S, string](key)
 						if d.stackExp[si].MapCanUseAssignFaststr {
 							pNewData = mapassign_faststr(typMap, pMap, keyStr)
-- 
2.43.0


From ac63286a263df5217b3ab744d7c7f57f7f38b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 14/27] fix: return an error for non-empty interface types

---
 append_type_stack.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index c395e8a..359d829 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -18,6 +18,8 @@ func appendTypeToStack[S []byte | string](
 			Size:             unsafe.Sizeof(struct{ typ, dat uintptr }{}),
 			ParentFrameIndex: noParentFrame,
 		}), nil
+	} else if t.Kind() == reflect.Interface && t.NumMethod() != 0 {
+		return nil, fmt.Errorf("unsupported type: %v", t)
 	} else if s := determineJSONUnmarshalerSupport(t); s != interfaceSupportNone {
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeJSONUnmarshaler,
@@ -37,10 +39,6 @@ func appendTypeToStack[S []byte | string](
 	}
 	switch t.Kind() {
 	case reflect.Interface:
-		if t.NumMethod() != 0 {
-			// TODO:
-			panic("not yet supported")
-		}
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeAny,
 			Typ:              getTyp(t),
-- 
2.43.0


From c08f9aee3f90e658ac004da250816dd69e96faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 15/27] fix: preserve the sign of negative zero when decoding
 floats

---
 jscandec.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 1cfa905..ce48cc7 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -909,7 +909,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 
 				case ExpectTypeFloat32:
-					if tokens[ti].End-tokens[ti].Index < len("16777216") {
+					if tokens[ti].End-tokens[ti].Index < len("16777216") &&
+						s[tokens[ti].Index] != '-' {
 						// Numbers below this length are guaranteed to be smaller 1<<24
 						// And float32(i32) is faster than calling parseFloat32
 						i32, errParse := tokens[ti].Int32(s)
@@ -928,7 +929,8 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 				case ExpectTypeFloat64:
-					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") {
+					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") &&
+						s[tokens[ti].Index] != '-' {
 						// Numbers below this length are guaranteed to be smaller 1<<53
 						// And float64(i64) is faster than calling parseFloat64
 						i64, errParse := tokens[ti].Int64(s)
@@ -2017,7 +2019,8 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("16777216") {
+							if tokens[i].End-tokens[i].Index < len("16777216") &&
+								s[tokens[i].Index] != '-' {
 								// Numbers below this length are guaranteed to be smaller
 								// 1<<24 and float32(i32) is faster than parseFloat32.
 								i32, errParse := tokens[i].Int32(s)
@@ -2079,7 +2082,8 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("9007199254740992") {
+							if tokens[i].End-tokens[i].Index < len("9007199254740992") &&
+								s[tokens[i].Index] != '-' {
 								// Numbers below this length are guaranteed to be smaller
 								// 1<<53a and float64(i64) is faster than parseFloat64.
 								v, errParse := tokens[i].Int64(s)
-- 
2.43.0


From 6989e60e6b83d40c8e589f6521b3b1bcc191afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 16/27] fix: check the elements of slices of empty structs

---
 append_type_stack.go |  2 +-
 jscandec.go          | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 359d829..e5c0fb9 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -76,7 +76,7 @@ func appendTypeToStack[S []byte | string](
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Struct:
-			if elem.Size() < 1 {
+			if elem.NumField() == 0 {
 				return append(stack, stackFrame[S]{
 					Type:             ExpectTypeSliceEmptyStruct,
 					Typ:              getTyp(t),
diff --git a/jscandec.go b/jscandec.go
index ce48cc7..f068880 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1302,6 +1302,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint32)(p) = zeroUint32
 				case ExpectTypeUint64:
 					*(*uint64)(p) = zeroUint64
+				case ExpectTypeSliceEmptyStruct:
+					*(*[]struct{})(p) = nil
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
@@ -1483,6 +1485,16 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
+					for i := ti + 1; i < tokens[ti].End; i++ {
+						switch tokens[i].Type {
+						case jscan.TokenTypeNull:
+						case jscan.TokenTypeObject:
+							i = tokens[i].End // Skip object value
+						default:
+							errIndex, err = tokens[i].Index, ErrUnexpectedValue
+							return true
+						}
+					}
 					*(*sliceHeader)(p) = sliceHeader{
 						Data: emptyStructAddr,
 						Len:  uintptr(tokens[ti].Elements),
-- 
2.43.0


From ff09efd646ee94c14f4a360270c3bd46adda3eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 17/27] fix: match field names case-insensitively regardless of
 encoded length

---
 jscandec.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f068880..ad7ba42 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2780,21 +2780,21 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	f := fields
 	eq := strings.EqualFold
 	for ; len(f) >= 4; f = f[4:] { // Try 4 at a time if enough are left
-		if len(f[0].Name) == len(name) && eq(string(f[0].Name), string(name)) {
+		if eq(string(f[0].Name), string(name)) {
 			return f[0].FrameIndex
 		}
-		if len(f[1].Name) == len(name) && eq(string(f[1].Name), string(name)) {
+		if eq(string(f[1].Name), string(name)) {
 			return f[1].FrameIndex
 		}
-		if len(f[2].Name) == len(name) && eq(string(f[2].Name), string(name)) {
+		if eq(string(f[2].Name), string(name)) {
 			return f[2].FrameIndex
 		}
-		if len(f[3].Name) == len(name) && eq(string(f[3].Name), string(name)) {
+		if eq(string(f[3].Name), string(name)) {
 			return f[3].FrameIndex
 		}
 	}
 	for i := range f {
-		if len(f[i].Name) == len(name) && eq(string(f[i].Name), string(name)) {
+		if eq(string(f[i].Name), string(name)) {
 			return f[i].FrameIndex
 		}
 	}
-- 
2.43.0


From a0984ce57c80e826ab04d212eb9720c82a37087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 18/27] fix: zero the map value before decoding into it

---
 jscandec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index ad7ba42..4ab714d 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2538,11 +2538,8 @@ func (d *Decoder[S, T]) Decode(
 
 					d.stackExp[si].Dest = pNewData
 
-					// Zero struct values
-					if d.stackExp[si].Type == ExpectTypeStruct ||
-						d.stackExp[si].Type == ExpectTypeStructRecur {
-						typedmemclr(typVal, pNewData)
-					}
+					// Zero the value, the key might already exist in the map.
+					typedmemclr(typVal, pNewData)
 
 				default:
 					errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-- 
2.43.0


From 9e7b025b69702e604fd349d252fcc7a7d9eb0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 19/27] fix: keep existing entries when decoding into a non-nil
 map[string]string

---
 jscandec.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 4ab714d..7810a9d 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2222,10 +2222,15 @@ func (d *Decoder[S, T]) Decode(
 					)
 					if tokens[ti].Elements == 0 {
 						ti += 2
-						*(*map[string]string)(p) = make(map[string]string, 0)
+						if *(*map[string]string)(p) == nil {
+							*(*map[string]string)(p) = make(map[string]string, 0)
+						}
 						goto ON_VAL_END
 					}
-					m := make(map[string]string, tokens[ti].Elements)
+					m := *(*map[string]string)(p)
+					if m == nil {
+						m = make(map[string]string, tokens[ti].Elements)
+					}
 					tiEnd := tokens[ti].End
 
 					for ti++; ti < tiEnd; ti += 2 {
-- 
2.43.0


From 06d685d159a21b33611a95c7ef1c1ebef7ad5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 20/27] fix: derive the decoder from the static destination
 type

---
 jscandec.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 7810a9d..2c774be 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -497,7 +497,9 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	}
 	stack := make([]stackFrame[S], 0, 4)
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(*t), DefaultInitOptions)
+	stack, err = appendTypeToStack(
+		stack, reflect.TypeOf((*T)(nil)).Elem(), DefaultInitOptions,
+	)
 	if err != nil {
 		return err
 	}
@@ -536,9 +538,10 @@ func NewDecoder[S []byte | string, T any](
 		stackExp:  make([]stackFrame[S], 0, 4),
 	}
 
-	var z T
 	var err error
-	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z), options)
+	d.stackExp, err = appendTypeToStack(
+		d.stackExp, reflect.TypeOf((*T)(nil)).Elem(), options,
+	)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3c370bb9eead2114a4e91d353e5973daa922cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 21/27] fix: support pointers to unmarshaler types

---
 jscandec.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 2c774be..16046fd 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1023,9 +1023,15 @@ func (d *Decoder[S, T]) Decode(
 
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
-					u := reflect.NewAt(
-						d.stackExp[si].RType, p,
-					).Interface().(encoding.TextUnmarshaler)
+					v := reflect.NewAt(d.stackExp[si].RType, p)
+					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+						// The pointer itself implements the interface
+						v = v.Elem()
+						if v.IsNil() {
+							v.Set(reflect.New(d.stackExp[si].RType.Elem()))
+						}
+					}
+					u := v.Interface().(encoding.TextUnmarshaler)
 					tb := unescape.Valid[S, []byte](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
@@ -1335,6 +1341,10 @@ func (d *Decoder[S, T]) Decode(
 					*(*[]uint32)(p) = nil
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
+				case ExpectTypeTextUnmarshaler:
+					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+						*(*unsafe.Pointer)(p) = nil
+					}
 				case ExpectTypeJSONUnmarshaler:
 					goto ON_JSON_UNMARSHALER
 				}
@@ -2678,7 +2688,19 @@ func (d *Decoder[S, T]) Decode(
 					raw = s[tokens[ti].Index:tokens[ti].End]
 					ti++
 				}
-				u := reflect.NewAt(d.stackExp[si].RType, p).Interface().(json.Unmarshaler)
+				v := reflect.NewAt(d.stackExp[si].RType, p)
+				if d.stackExp[si].RType.Kind() == reflect.Pointer {
+					// The pointer itself implements the interface
+					v = v.Elem()
+					if string(raw) == "null" {
+						v.SetZero()
+						goto ON_VAL_END
+					}
+					if v.IsNil() {
+						v.Set(reflect.New(d.stackExp[si].RType.Elem()))
+					}
+				}
+				u := v.Interface().(json.Unmarshaler)
 				if errUnmarshal := u.UnmarshalJSON([]byte(raw)); errUnmarshal != nil {
 					errIndex, err = tkIndex, errUnmarshal
 					return true
-- 
2.43.0


From 64d989d77ebe960c3ec30c184141a73eeb3a438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 22/27] fix: respect unmarshaler implementations of slice and
 map elements

---
 append_type_stack.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index e5c0fb9..70285e2 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -74,7 +74,11 @@ func appendTypeToStack[S []byte | string](
 
 	case reflect.Slice:
 		elem := t.Elem()
-		switch elem.Kind() {
+		elemKind := elem.Kind()
+		if implementsUnmarshaler(elem) {
+			elemKind = reflect.Invalid // No specialization
+		}
+		switch elemKind {
 		case reflect.Struct:
 			if elem.NumField() == 0 {
 				return append(stack, stackFrame[S]{
@@ -222,7 +226,8 @@ func appendTypeToStack[S []byte | string](
 	case reflect.Map:
 		parentIndex := uint32(len(stack))
 		elem := t.Elem()
-		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
+		if elem.Kind() == reflect.Struct && elem.Size() > 0 &&
+			!implementsUnmarshaler(elem) {
 			// Check for recursion
 			for i := range stack {
 				if stack[i].RType == elem {
@@ -254,7 +259,9 @@ func appendTypeToStack[S []byte | string](
 			}
 		}
 
-		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String {
+		if t.Key().Kind() == reflect.String && elem.Kind() == reflect.String &&
+			elem != tpNumber && !implementsUnmarshaler(elem) &&
+			determineTextUnmarshalerSupport(t.Key()) == interfaceSupportNone {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -506,7 +513,8 @@ func appendTypeToStack[S []byte | string](
 		parentIndex := uint32(len(stack))
 
 		elem := t.Elem()
-		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
+		if elem.Kind() == reflect.Struct && elem.Size() > 0 &&
+			!implementsUnmarshaler(elem) {
 			// Check for recursion
 			for i := range stack {
 				if stack[i].RType == elem {
@@ -545,6 +553,13 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// implementsUnmarshaler returns true if values of type t are to be decoded using
+// encoding/json.Unmarshaler or encoding.TextUnmarshaler.
+func implementsUnmarshaler(t reflect.Type) bool {
+	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone
+}
+
 // appendMapKeyToStack appends the frame of map key type t and returns an error
 // if t is not supported as map key type.
 func appendMapKeyToStack[S []byte | string](
-- 
2.43.0


From 63f6eb51c773eb1cb444e790cc7bcc750e0d4409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 23/27] fix: reject unknown fields of empty structs when
 disallowed

---
 jscandec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 16046fd..c04a312 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1502,6 +1502,10 @@ func (d *Decoder[S, T]) Decode(
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
 						case jscan.TokenTypeObject:
+							if options.DisallowUnknownFields && tokens[i].Elements > 0 {
+								errIndex, err = tokens[i+1].Index, ErrUnknownField
+								return true
+							}
 							i = tokens[i].End // Skip object value
 						default:
 							errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -2150,6 +2154,10 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
+					if options.DisallowUnknownFields && tokens[ti].Elements > 0 {
+						errIndex, err = tokens[ti+1].Index, ErrUnknownField
+						return true
+					}
 					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
-- 
2.43.0


From 606be306461fa0696aee18edea955ab8f45d8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 24/27] fix: support copying slices of pointer-free element
 types

---
 jscandec.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index c04a312..9e098c1 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1420,11 +1420,7 @@ func (d *Decoder[S, T]) Decode(
 							if h.Len != 0 && d.stackExp[si+1].Type.isElemComposite() {
 								// Must copy existing data bzecause it's not guarenteed
 								// that the existing data will be fully overwritten.
-								typedslicecopy(
-									d.stackExp[si+1].Typ,
-									sh.Data, int(elems),
-									h.Data, int(h.Len),
-								)
+								typedslicecopy(d.stackExp[si+1].Typ, sh, h)
 							}
 						} else {
 							sh.Data = emptyStructAddr
@@ -1473,11 +1469,7 @@ func (d *Decoder[S, T]) Decode(
 						if h.Len != 0 {
 							// Must copy existing data because it's not guarenteed
 							// that the existing data will be fully overwritten.
-							typedslicecopy(
-								d.stackExp[recursiveFrame].Typ,
-								sh.Data, int(elems),
-								h.Data, int(h.Len),
-							)
+							typedslicecopy(d.stackExp[recursiveFrame].Typ, sh, h)
 						}
 						*(*sliceHeader)(p) = sh
 						dp = sh.Data
@@ -2899,11 +2891,8 @@ func newarray(typ *typ, n uintptr) unsafe.Pointer
 //go:linkname mallocgc runtime.mallocgc
 func mallocgc(size uintptr, typ *typ, needzero bool) unsafe.Pointer
 
-//go:linkname typedslicecopy runtime.typedslicecopy
-//go:nosplit
-func typedslicecopy(
-	elemTyp *typ, dstPtr unsafe.Pointer, dstLen int, srcPtr unsafe.Pointer, srcLen int,
-) int
+//go:linkname typedslicecopy reflect.typedslicecopy
+func typedslicecopy(elemTyp *typ, dst, src sliceHeader) int
 
 //go:linkname typedmemclr runtime.typedmemclr
 //go:noescape
-- 
2.43.0


From 1a6354f77f6c190183e4bf527e7307ab35edb364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 25/27] fix: support map keys of string and integer kind that
 implement json.Unmarshaler

---
 append_type_stack.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 70285e2..c8c5aa9 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -578,6 +578,10 @@ func appendMapKeyToStack[S []byte | string](
 			ParentFrameIndex: noParentFrame,
 		}), nil
 	}
+	if determineJSONUnmarshalerSupport(t) != interfaceSupportNone {
+		// encoding/json.Unmarshaler is irrelevant to map keys.
+		t = basicType(t)
+	}
 	keyIndex := len(stack)
 	stack, err := appendTypeToStack(stack, t, options)
 	if err != nil {
@@ -594,6 +598,36 @@ func appendMapKeyToStack[S []byte | string](
 	return nil, fmt.Errorf("unsupported map key type: %v", t)
 }
 
+// basicType returns the predeclared string or integer type of the kind of t.
+// Returns t if t is neither of a string nor of an integer kind.
+func basicType(t reflect.Type) reflect.Type {
+	switch t.Kind() {
+	case reflect.String:
+		return reflect.TypeOf("")
+	case reflect.Int:
+		return reflect.TypeOf(int(0))
+	case reflect.Int8:
+		return reflect.TypeOf(int8(0))
+	case reflect.Int16:
+		return reflect.TypeOf(int16(0))
+	case reflect.Int32:
+		return reflect.TypeOf(int32(0))
+	case reflect.Int64:
+		return reflect.TypeOf(int64(0))
+	case reflect.Uint:
+		return reflect.TypeOf(uint(0))
+	case reflect.Uint8:
+		return reflect.TypeOf(uint8(0))
+	case reflect.Uint16:
+		return reflect.TypeOf(uint16(0))
+	case reflect.Uint32:
+		return reflect.TypeOf(uint32(0))
+	case reflect.Uint64:
+		return reflect.TypeOf(uint64(0))
+	}
+	return t
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
-- 
2.43.0


From 66a60f0c1a8982e09da205ae7eb9623929d97c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 26/27] fix: never keep pointers behind the last element of a
 slice in the decoder

---
 jscandec.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 9e098c1..b354d95 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2586,6 +2586,9 @@ func (d *Decoder[S, T]) Decode(
 					si = d.popRecursion(si)
 					goto ON_VAL_END
 				}
+				// Don't leave the offset behind the last element, the element frame
+				// might be referred to by recursive frames outside of the array.
+				d.stackExp[si].Offset = 0
 				si--
 				goto ON_VAL_END
 			}
@@ -2745,10 +2748,12 @@ func (d *Decoder[S, T]) popRecursion(recursiveFrame uint32) (containerFrame uint
 	r.RecursionStack = r.RecursionStack[:topIndex]
 
 	r.Dest, r.Offset = top.Dest, top.Offset
-	for i := range r.Fields {
-		d.stackExp[r.Fields[i].FrameIndex].Dest = unsafe.Pointer(
-			uintptr(top.Dest) + top.Offset,
-		)
+	if top.Dest != nil {
+		for i := range r.Fields {
+			d.stackExp[r.Fields[i].FrameIndex].Dest = unsafe.Pointer(
+				uintptr(top.Dest) + top.Offset,
+			)
+		}
 	}
 	c := &d.stackExp[top.ContainerFrame]
 	c.Dest, c.Offset, c.Len = top.ContainerDest, top.ContainerOffset, top.ContainerLen
-- 
2.43.0


From e4229799c5b836f6c316fb9e0ecb9daacf92a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 27/27] fix: restore all frames between recursive containers
 and recursive structs

---
 jscandec.go | 97 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index b354d95..80ae7d5 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -392,26 +392,17 @@ type fieldStackFrame struct {
 }
 
 type recursionStackFrame struct {
-	// Dest stores the destination pointer for the recursive frame to be reset to.
+	// Dest stores the destination pointer the frame is to be reset to.
 	Dest unsafe.Pointer
 
-	// Offset stores the offset for the recursive frame to be reset to.
+	// Offset stores the offset the frame is to be reset to.
 	Offset uintptr
 
-	// ContainerDest stores the destination pointer for the recursive container
-	// frame to be reset to.
-	ContainerDest unsafe.Pointer
+	// Len stores the length the frame is to be reset to.
+	Len int
 
-	// ContainerOffset stores the offset for the recursive container frame
-	// to be reset to.
-	ContainerOffset uintptr
-
-	// ContainerLen stores the length for the recursive container frame
-	// to be reset to.
-	ContainerLen int
-
-	// ContainerFrame stores the index of the recursive container frame.
-	ContainerFrame uint32
+	// FrameIndex stores the index of the frame.
+	FrameIndex uint32
 }
 
 type stackFrame[S []byte | string] struct {
@@ -2597,7 +2588,7 @@ func (d *Decoder[S, T]) Decode(
 		ON_RECUR_OBJ_END:
 			if l := len(d.stackExp[si].RecursionStack); l > 0 {
 				top := d.stackExp[si].RecursionStack[l-1]
-				switch d.stackExp[top.ContainerFrame].Type {
+				switch d.stackExp[top.FrameIndex].Type {
 				case ExpectTypeSliceRecur:
 					d.stackExp[si].Offset += d.stackExp[si].Size
 				case ExpectTypePtrRecur:
@@ -2606,12 +2597,12 @@ func (d *Decoder[S, T]) Decode(
 					goto ON_VAL_END
 
 				case ExpectTypeMapRecur:
-					si = top.ContainerFrame
+					si = top.FrameIndex
 					// Set the top stack destination so the next key gets assigned to it.
 					// Otherwise we'll be in the destination of the previously assigned
 					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.ContainerDest
-					d.stackExp[si].Offset = top.ContainerOffset
+					d.stackExp[si].Dest = top.Dest
+					d.stackExp[si].Offset = top.Offset
 				}
 				continue
 			}
@@ -2723,41 +2714,57 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
-// pushRecursion pushes the current state of the recursive container frame and the
-// recursive struct frame it refers to onto the recursion stack.
+// pushRecursion pushes the current state of the recursive struct frame referred to by
+// the recursive container frame onto the recursion stack, followed by the states of
+// all frames between the two and the state of the container frame itself.
 func (d *Decoder[S, T]) pushRecursion(containerFrame uint32) {
-	c := &d.stackExp[containerFrame]
-	r := &d.stackExp[c.RecurFrame]
+	recursiveFrame := uint32(d.stackExp[containerFrame].RecurFrame)
+	d.pushFrameState(recursiveFrame, recursiveFrame)
+	f := d.stackExp[containerFrame].ParentFrameIndex
+	for f != recursiveFrame && f != noParentFrame {
+		d.pushFrameState(recursiveFrame, f)
+		f = d.stackExp[f].ParentFrameIndex
+	}
+	d.pushFrameState(recursiveFrame, containerFrame)
+}
+
+// pushFrameState pushes the current state of frame
+// onto the recursion stack of recursiveFrame.
+func (d *Decoder[S, T]) pushFrameState(recursiveFrame, frame uint32) {
+	f, r := &d.stackExp[frame], &d.stackExp[recursiveFrame]
 	r.RecursionStack = append(r.RecursionStack, recursionStackFrame{
-		Dest:            r.Dest,
-		Offset:          r.Offset,
-		ContainerDest:   c.Dest,
-		ContainerOffset: c.Offset,
-		ContainerLen:    c.Len,
-		ContainerFrame:  containerFrame,
+		Dest:       f.Dest,
+		Offset:     f.Offset,
+		Len:        f.Len,
+		FrameIndex: frame,
 	})
 }
 
-// popRecursion resets the recursive struct frame and the recursive container frame
-// to the state at the time of pushRecursion and returns the container frame index.
+// popRecursion resets all frames pushed by the last call to pushRecursion to
+// their state at that time and returns the container frame index.
 func (d *Decoder[S, T]) popRecursion(recursiveFrame uint32) (containerFrame uint32) {
 	r := &d.stackExp[recursiveFrame]
-	topIndex := len(r.RecursionStack) - 1
-	top := r.RecursionStack[topIndex]
-	r.RecursionStack[topIndex] = recursionStackFrame{}
-	r.RecursionStack = r.RecursionStack[:topIndex]
-
-	r.Dest, r.Offset = top.Dest, top.Offset
-	if top.Dest != nil {
-		for i := range r.Fields {
-			d.stackExp[r.Fields[i].FrameIndex].Dest = unsafe.Pointer(
-				uintptr(top.Dest) + top.Offset,
-			)
+	i := len(r.RecursionStack) - 1
+	containerFrame = r.RecursionStack[i].FrameIndex
+	for {
+		top := r.RecursionStack[i]
+		r.RecursionStack[i] = recursionStackFrame{}
+		r.RecursionStack = r.RecursionStack[:i]
+
+		f := &d.stackExp[top.FrameIndex]
+		f.Dest, f.Offset, f.Len = top.Dest, top.Offset, top.Len
+		if top.Dest != nil {
+			for j := range f.Fields {
+				d.stackExp[f.Fields[j].FrameIndex].Dest = unsafe.Pointer(
+					uintptr(top.Dest) + top.Offset,
+				)
+			}
+		}
+		if top.FrameIndex == recursiveFrame {
+			return containerFrame
 		}
+		i--
 	}
-	c := &d.stackExp[top.ContainerFrame]
-	c.Dest, c.Offset, c.Len = top.ContainerDest, top.ContainerOffset, top.ContainerLen
-	return top.ContainerFrame
 }
 
 type sliceHeader struct {
-- 
2.43.0

