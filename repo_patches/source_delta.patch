From ad563f3b7ddcfc4fb945a60aa4c6f9dff55b1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 01/76] fix: full 16.16 range for Type 2 charstring operands

Coordinates between 32000 and 32768 were clamped, widths and stem
hints were not restricted to the 16.16 range.
---
 cff/t2decode.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 9792159..6fc6817 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -54,7 +54,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 			return
 		}
 		if isPresent {
-			res.Width = stack[0] + info.nominalWidth
+			res.Width = fix(stack[0]) + info.nominalWidth
 			copy(stack, stack[1:])
 			stack = stack[:len(stack)-1]
 		}
@@ -346,8 +346,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				setGlyphWidth(len(stack)%2 == 1)
 				var prev float64
 				for k := 0; k+1 < len(stack); k += 2 {
-					a := prev + stack[k]
-					b := a + stack[k+1]
+					a := prev + fix(stack[k])
+					b := a + fix(stack[k+1])
 					res.HStem = append(res.HStem, a, b)
 					prev = b
 				}
@@ -363,8 +363,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				setGlyphWidth(len(stack)%2 == 1)
 				var prev float64
 				for k := 0; k+1 < len(stack); k += 2 {
-					a := prev + stack[k]
-					b := a + stack[k+1]
+					a := prev + fix(stack[k])
+					b := a + fix(stack[k+1])
 					res.VStem = append(res.VStem, a, b)
 					prev = b
 				}
@@ -385,8 +385,8 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				// need not be included."
 				var prev float64
 				for k := 0; k+1 < len(stack); k += 2 {
-					a := prev + stack[k]
-					b := a + stack[k+1]
+					a := prev + fix(stack[k])
+					b := a + fix(stack[k+1])
 					res.VStem = append(res.VStem, a, b)
 					prev = b
 				}
@@ -645,12 +645,13 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 	return nil, errIncomplete
 }
 
-// Fix a float64 to a 16.16 fixed point number in the range [-32000, 32000].
+// fix rounds x to the nearest 16.16 fixed point number.
 func fix(x float64) float64 {
-	if x > 32000 {
-		return 32000
-	} else if x < -32000 {
-		return -32000
+	const max = 32768 - 1.0/65536
+	if x > max {
+		return max
+	} else if x < -32768 {
+		return -32768
 	}
 	return math.Round(x*65536) / 65536
 }
-- 
2.43.0


From 383f6de3a908cd77860703fc2437702bb1a16e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 02/76] fix: Type 2 mul operator must multiply its operands

The operands are stored as float64 values, not as raw 16.16 integers.
---
 cff/t2decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 6fc6817..cf6661d 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -465,7 +465,7 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				if k < 0 {
 					return nil, errStackUnderflow
 				}
-				stack[k] = float64(int64(stack[k]) * int64(stack[k+1]) >> 16)
+				stack[k] *= stack[k+1]
 				stack = stack[:k+1]
 			case t2sqrt:
 				k := len(stack) - 1
-- 
2.43.0


From fb9acff8f9c09a9380cf47631da4479b4f606709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 03/76] fix: last point of the Type 2 flex1 operator

The coordinate which is not given by d6 must equal the corresponding
coordinate of the starting point of the flex, not that of the previous
control point.
---
 cff/t2decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index cf6661d..3933d71 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -300,11 +300,11 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 					if math.Abs(dx) > math.Abs(dy) {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							extra, 0)
+							extra, -dy)
 					} else {
 						rCurveTo(stack[6], stack[7],
 							stack[8], stack[9],
-							0, extra)
+							-dx, extra)
 					}
 					// fd = 0.5
 				}
-- 
2.43.0


From 81b70f0cc7f2415ad38574f5d13f8656f654292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 04/76] fix: accept roll count 0 in Type 2 charstrings

The count may be any non-negative integer.
---
 cff/t2decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 3933d71..4babba0 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -509,10 +509,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				}
 				n := int(stack[k])
 				j := int(stack[k+1])
-				if n <= 0 || n > k {
+				if n < 0 || n > k {
 					return nil, errors.New("invalid roll count")
 				}
-				roll(stack[k-n:k], j)
+				if n > 0 {
+					roll(stack[k-n:k], j)
+				}
 				stack = stack[:k]
 			case t2dup:
 				k := len(stack) - 1
-- 
2.43.0


From 0366c9922cae3111a9b4224497ef3f4c6ba81c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 05/76] fix: reject Type 2 path operators with missing operands

---
 cff/t2decode.go | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/cff/t2decode.go b/cff/t2decode.go
index 4babba0..846dcff 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -167,26 +167,33 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 				code = code[1:]
 			}
 
+			if !validArgCount(op, len(stack)) {
+				return nil, errStackUnderflow
+			}
+
 			switch op {
 			case t2rmoveto:
 				setGlyphWidth(len(stack) > 2)
-				if len(stack) >= 2 {
-					rMoveTo(stack[0], stack[1])
+				if len(stack) < 2 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(stack[0], stack[1])
 				clearStack()
 
 			case t2hmoveto:
 				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(stack[0], 0)
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(stack[0], 0)
 				clearStack()
 
 			case t2vmoveto:
 				setGlyphWidth(len(stack) > 1)
-				if len(stack) >= 1 {
-					rMoveTo(0, stack[0])
+				if len(stack) < 1 {
+					return nil, errStackUnderflow
 				}
+				rMoveTo(0, stack[0])
 				clearStack()
 
 			case t2rlineto:
@@ -647,6 +654,36 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 	return nil, errIncomplete
 }
 
+// validArgCount reports whether a path construction operator can be used with
+// n operands on the stack.  All other operators are checked when they are
+// executed.
+func validArgCount(op t2op, n int) bool {
+	switch op {
+	case t2rlineto:
+		return n >= 2 && n%2 == 0
+	case t2hlineto, t2vlineto:
+		return n >= 1
+	case t2rrcurveto:
+		return n >= 6 && n%6 == 0
+	case t2rcurveline:
+		return n >= 8 && n%6 == 2
+	case t2rlinecurve:
+		return n >= 8 && n%2 == 0
+	case t2hhcurveto, t2vvcurveto, t2hvcurveto, t2vhcurveto:
+		return n >= 4 && n%4 <= 1
+	case t2flex:
+		return n >= 13
+	case t2flex1:
+		return n >= 11
+	case t2hflex:
+		return n >= 7
+	case t2hflex1:
+		return n >= 9
+	default:
+		return true
+	}
+}
+
 // fix rounds x to the nearest 16.16 fixed point number.
 func fix(x float64) float64 {
 	const max = 32768 - 1.0/65536
-- 
2.43.0


From 87edc98ada868f2ca2d6a908fb3290e2cd3212c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 06/76] fix: write CFF default and nominal widths without loss

Fractional default and nominal widths were truncated to integers when
stored in the Private DICT, and the nominal width was infinite for fonts
where all widths are equal.
---
 cff/write.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index 8a83315..279679e 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -238,20 +238,16 @@ func (f *Font) Write(w io.Writer) error {
 	return nil
 }
 
+// selectWidths chooses values for defaultWidthX and nominalWidthX.
+// Both values are integers, so that they can be stored without loss
+// of precision.
 func (f *Font) selectWidths() (float64, float64) {
-	numGlyphs := int32(len(f.Glyphs))
-	if numGlyphs == 0 {
-		return 0, 0
-	} else if numGlyphs == 1 {
-		return f.Glyphs[0].Width, f.Glyphs[0].Width
-	}
-
 	widthHist := make(map[float64]int32)
 	var mostFrequentCount int32
 	var defaultWidth float64
 	for _, glyph := range f.Glyphs {
 		w := glyph.Width
-		if math.Abs(w) > 32767 {
+		if math.Abs(w) > 32767 || w != math.Trunc(w) {
 			continue
 		}
 		widthHist[w]++
@@ -278,12 +274,24 @@ func (f *Font) selectWidths() (float64, float64) {
 			maxWidth = w
 		}
 	}
-	nominalWidth := math.Round(sum / float64(numGlyphs))
+	if minWidth > maxWidth {
+		// all glyphs use the default width
+		return defaultWidth, defaultWidth
+	}
+	nominalWidth := math.Round(sum / float64(len(f.Glyphs)))
 	if nominalWidth < minWidth+107 {
-		nominalWidth = minWidth + 107
+		nominalWidth = math.Floor(minWidth + 107)
 	} else if nominalWidth > maxWidth-107 {
-		nominalWidth = maxWidth - 107
+		nominalWidth = math.Ceil(maxWidth - 107)
+	}
+	// Make sure that the differences fit into 16.16 fixed point numbers, if
+	// possible.
+	if nominalWidth < maxWidth-32767 {
+		nominalWidth = math.Ceil(maxWidth - 32767)
+	} else if nominalWidth > minWidth+32768 {
+		nominalWidth = math.Floor(minWidth + 32768)
 	}
+	nominalWidth = clamp(nominalWidth, -1<<30, 1<<30)
 	return defaultWidth, nominalWidth
 }
 
-- 
2.43.0


From b73e897d3615b1929f0990a4847c45aa3fd9cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 07/76] fix: don't accumulate rounding errors or wrap numbers
 in Type 2 charstrings

Numbers which do not fit into 16.16 fixed point format now cause an error
instead of being stored modulo 65536.
---
 cff/t2encode.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/cff/t2encode.go b/cff/t2encode.go
index e803fd9..8ce1f1b 100644
--- a/cff/t2encode.go
+++ b/cff/t2encode.go
@@ -32,6 +32,9 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	var header [][]byte
 	w := g.Width
 	if w != defaultWidth {
+		if !fitsFixed(w - nominalWidth) {
+			return nil, errNumberRange
+		}
 		x := encodeNumber(w - nominalWidth)
 		header = append(header, x.Code)
 	}
@@ -72,8 +75,12 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 			stems = stems[2*k:]
 			prev := 0.0
 			for _, x := range chunk {
-				header = append(header, encodeNumber(x-prev).Code)
-				prev = x
+				if !fitsFixed(x - prev) {
+					return nil, errNumberRange
+				}
+				delta := encodeNumber(x - prev)
+				header = append(header, delta.Code)
+				prev += delta.Val
 			}
 
 			canOmitVStem := (i == 1 &&
@@ -87,7 +94,10 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 		}
 	}
 
-	data := encodePaths(g.Cmds)
+	data, err := encodePaths(g.Cmds)
+	if err != nil {
+		return nil, err
+	}
 
 	k := 0
 	for _, b := range header {
@@ -107,10 +117,13 @@ func (g *Glyph) encodeCharString(defaultWidth, nominalWidth float64) ([]byte, er
 	return code, nil
 }
 
-func encodePaths(commands []GlyphOp) [][]byte {
+func encodePaths(commands []GlyphOp) ([][]byte, error) {
 	var res [][]byte
 
-	cmds := encodeArgs(commands)
+	cmds, err := encodeArgs(commands)
+	if err != nil {
+		return nil, err
+	}
 
 	for len(cmds) > 0 {
 		switch cmds[0].Op {
@@ -148,12 +161,20 @@ func encodePaths(commands []GlyphOp) [][]byte {
 	}
 	res = append(res, t2endchar.Bytes())
 
-	return res
+	return res, nil
 }
 
-func encodeArgs(cmds []GlyphOp) []enCmd {
+func encodeArgs(cmds []GlyphOp) ([]enCmd, error) {
 	res := make([]enCmd, len(cmds))
 
+	rangeOk := true
+	encodeNumber := func(x float64) encodedNumber {
+		if !fitsFixed(x) {
+			rangeOk = false
+		}
+		return encodeNumber(x)
+	}
+
 	var posX float64
 	var posY float64
 	for i, cmd := range cmds {
@@ -191,7 +212,10 @@ func encodeArgs(cmds []GlyphOp) []enCmd {
 			panic("unhandled command")
 		}
 	}
-	return res
+	if !rangeOk {
+		return nil, errNumberRange
+	}
+	return res, nil
 }
 
 func encodeSubPath(cmds []enCmd) [][]byte {
@@ -483,6 +507,14 @@ func (x encodedNumber) String() string {
 	return fmt.Sprintf("%g (% x)", x.Val, x.Code)
 }
 
+// fitsFixed returns true if x can be rounded to a 16.16 fixed point number.
+func fitsFixed(x float64) bool {
+	y := math.Round(x * 65536)
+	return y >= math.MinInt32 && y <= math.MaxInt32
+}
+
+var errNumberRange = invalidSince("number too large for type 2 charstring")
+
 // encodeNumber encodes the given number into a CFF encoding.
 func encodeNumber(x float64) encodedNumber {
 	var code []byte
-- 
2.43.0


From c698e090f9c54b1fb68a9b3350bc56dcdcdb5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 08/76] fix: preserve real numbers in CFF dictionaries

BlueScale and font matrices close to the default were dropped,
fractional underline metrics were truncated, numbers outside
1e-300...1e300 were clamped, integer font matrix entries and fractional
blue values were rejected on reading, and large differences between
blue values wrapped around.
---
 cff/dict.go | 70 ++++++++++++++++++++++++++++++++---------------------
 cff/font.go |  2 +-
 2 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 76c3194..248fdf8 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -23,6 +23,7 @@ import (
 	"math"
 	"sort"
 	"strconv"
+	"strings"
 
 	"seehuhn.de/go/geom/matrix"
 	"seehuhn.de/go/postscript/funit"
@@ -225,14 +226,6 @@ func decodeFloat(buf []byte) ([]byte, float64, error) {
 			s = append(s, '-')
 		case 0xf:
 			x, err := strconv.ParseFloat(string(s), 64)
-			switch {
-			case x > 1e300:
-				x = 1e300
-			case x > -1e-300 && x < 1e-300:
-				x = 0
-			case x < -1e300:
-				x = -1e300
-			}
 			return buf, x, err
 		default:
 			s = append(s, '0'+nibble)
@@ -253,15 +246,16 @@ func encodeFloat(x float64) []byte {
 
 	const numDigits = 9
 
-	l := int(math.Floor(math.Log10(x))) + 1
-	i := int(math.Round(x / math.Pow10(l-numDigits)))
-	if i < 100_000_000 {
-		l--
-		i *= 10
-	} else if i > 999_999_999 {
-		l++
-		i /= 10
+	// avoid rounding up to a number which is too large for a float64
+	x = min(x, 1.79769313e+308)
+
+	mantissa, exponent, _ := strings.Cut(strconv.FormatFloat(x, 'e', -1, 64), "e")
+	if len(mantissa) > numDigits+1 {
+		mantissa, exponent, _ = strings.Cut(strconv.FormatFloat(x, 'e', numDigits-1, 64), "e")
 	}
+	i, _ := strconv.Atoi(strings.Replace(mantissa, ".", "", 1))
+	l, _ := strconv.Atoi(exponent)
+	l++
 	// now i contains all the digits
 
 	// remove trailing zeros
@@ -317,6 +311,12 @@ func encodeFloat(x float64) []byte {
 	return out
 }
 
+// roundFloat returns x, rounded in the same way as encodeFloat does.
+func roundFloat(x float64) float64 {
+	_, y, _ := decodeFloat(encodeFloat(x))
+	return y
+}
+
 func itoaBinary(x int) []byte {
 	var digits []byte
 	for x > 0 {
@@ -369,14 +369,17 @@ func (d cffDict) getDeltaF16(op dictOp) []funit.Int16 {
 		return nil
 	}
 	res := make([]funit.Int16, len(values))
-	var prev funit.Int16
+	var prev float64
 	for i, v := range values {
-		x, ok := v.(int32)
-		if !ok {
+		switch x := v.(type) {
+		case int32:
+			prev += float64(x)
+		case float64:
+			prev += x
+		default:
 			return nil
 		}
-		res[i] = funit.Int16(x) + prev
-		prev = res[i]
+		res[i] = funit.Int16(math.Round(clamp(prev, math.MinInt16, math.MaxInt16)))
 	}
 	return res
 }
@@ -407,14 +410,17 @@ func (d cffDict) getFontMatrix(op dictOp, isCIDKeyed bool) (res matrix.Matrix) {
 	}
 
 	for i, x := range xx {
-		xi, ok := x.(float64)
-		if !ok {
+		switch x := x.(type) {
+		case int32:
+			res[i] = float64(x)
+		case float64:
+			res[i] = x
+		default:
 			if isCIDKeyed {
 				return matrix.Identity
 			}
 			return defaultFontMatrix
 		}
-		res[i] = xi
 	}
 
 	return res
@@ -428,7 +434,7 @@ func (d cffDict) setDeltaF16(op dictOp, val []funit.Int16) {
 	res := make([]interface{}, len(val))
 	var prev funit.Int16
 	for i, x := range val {
-		res[i] = int32(x - prev)
+		res[i] = int32(x) - int32(prev)
 		prev = x
 	}
 	d[op] = res
@@ -443,7 +449,7 @@ func (d cffDict) setFontMatrix(op dictOp, fm matrix.Matrix, isCIDKeyed bool) {
 		} else {
 			def = defaultFontMatrix[i]
 		}
-		if math.Abs(xi-def) > 1e-5 {
+		if roundFloat(xi) != def {
 			needed = true
 			break
 		}
@@ -505,10 +511,10 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 		topDict[opItalicAngle] = []interface{}{info.ItalicAngle}
 	}
 	if info.UnderlinePosition != defaultUnderlinePosition {
-		topDict[opUnderlinePosition] = []interface{}{int32(info.UnderlinePosition)}
+		topDict[opUnderlinePosition] = []interface{}{number(float64(info.UnderlinePosition))}
 	}
 	if info.UnderlineThickness != defaultUnderlineThickness {
-		topDict[opUnderlineThickness] = []interface{}{int32(info.UnderlineThickness)}
+		topDict[opUnderlineThickness] = []interface{}{number(float64(info.UnderlineThickness))}
 	}
 	// if info.IsOutlined {
 	// 	topDict[opPaintType] = []interface{}{int32(2)} // per font
@@ -517,6 +523,14 @@ func makeTopDict(info *type1.FontInfo) cffDict {
 	return topDict
 }
 
+// number returns a DICT operand for x, using an integer if possible.
+func number(x float64) interface{} {
+	if i := int32(x); float64(i) == x {
+		return i
+	}
+	return x
+}
+
 type privateInfo struct {
 	private      *type1.PrivateDict
 	subrs        cffIndex
diff --git a/cff/font.go b/cff/font.go
index 3b4cf17..8eb8be0 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -130,7 +130,7 @@ func (f *Font) makePrivateDict(idx int, defaultWidth, nominalWidth float64) cffD
 
 	privateDict.setDeltaF16(opBlueValues, private.BlueValues)
 	privateDict.setDeltaF16(opOtherBlues, private.OtherBlues)
-	if math.Abs(private.BlueScale-defaultBlueScale) > 1e-6 {
+	if roundFloat(private.BlueScale) != defaultBlueScale {
 		privateDict[opBlueScale] = []interface{}{private.BlueScale}
 	}
 	if private.BlueShift != defaultBlueShift {
-- 
2.43.0


From bd1c8e4ea18b50a44ee04b7da6e528ed64744d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 09/76] fix: refuse CFF charsets which need more than 16 bits
 per glyph

---
 cff/charset.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cff/charset.go b/cff/charset.go
index f7c72fd..f3ff621 100644
--- a/cff/charset.go
+++ b/cff/charset.go
@@ -97,6 +97,11 @@ func encodeCharset(names []int32) ([]byte, error) {
 		return nil, errors.New("invalid charset (missing .notdef)")
 	}
 	names = names[1:]
+	for _, name := range names {
+		if name < 0 || name > 0xFFFF {
+			return nil, errors.New("charset entry out of range")
+		}
+	}
 
 	// find runs of consecutive glyph names
 	runs := []int{0}
-- 
2.43.0


From 766a5c748cf421a06729ddec3fb9798e99768167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 10/76] fix: CIDCount must be larger than every CID in the font

---
 cff/write.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cff/write.go b/cff/write.go
index 279679e..56490a4 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -58,7 +58,11 @@ func (f *Font) Write(w io.Writer) error {
 		topDict[opROS] = []interface{}{
 			registrySID, orderingSID, f.ROS.Supplement,
 		}
-		topDict[opCIDCount] = []interface{}{int32(numGlyphs)}
+		cidCount := int32(numGlyphs)
+		for _, cid := range f.GIDToCID {
+			cidCount = max(cidCount, int32(cid)+1)
+		}
+		topDict[opCIDCount] = []interface{}{cidCount}
 		// opFDArray is updated below
 		// opFDSelect is updated below
 	} else {
-- 
2.43.0


From c6399bab371f8df46662a088e92824f50341660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:05 +0000
Subject: [PATCH 11/76] fix: decode TrueType glyphs without contours, reject
 decreasing contour ends

---
 glyf/simple.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/glyf/simple.go b/glyf/simple.go
index c0dae8e..bea461b 100644
--- a/glyf/simple.go
+++ b/glyf/simple.go
@@ -48,15 +48,24 @@ func (glyph *SimpleGlyph) Decode() (*GlyphInfo, error) {
 	buf := glyph.Encoded
 
 	numContours := int(glyph.NumContours)
-	if len(buf) < 2*numContours+2 {
+	if numContours == 0 && len(buf) < 2 {
+		// no data is required after the header of a glyph without contours
+		return &GlyphInfo{}, nil
+	}
+	if numContours < 0 || len(buf) < 2*numContours+2 {
 		return nil, errInvalidGlyphData
 	}
 	endPtsOfContours := make([]uint16, numContours)
+	numPoints := 0
 	for i := 0; i < numContours; i++ {
 		endPtsOfContours[i] = uint16(buf[2*i])<<8 | uint16(buf[2*i+1])
+		end := int(endPtsOfContours[i]) + 1
+		if end < numPoints {
+			return nil, errInvalidGlyphData
+		}
+		numPoints = end
 	}
 	buf = buf[2*numContours:]
-	numPoints := int(endPtsOfContours[numContours-1]) + 1
 
 	instructionLength := int(buf[0])<<8 | int(buf[1])
 	if len(buf) < 2+instructionLength {
@@ -170,6 +179,11 @@ func (glyph *SimpleGlyph) removePadding() error {
 	buf := glyph.Encoded
 
 	numContours := int(glyph.NumContours)
+	if numContours == 0 && len(buf) < 2 {
+		// no data is required after the header of a glyph without contours
+		glyph.Encoded = buf[:0]
+		return nil
+	}
 	if len(buf) < 2*numContours+2 {
 		return errInvalidGlyphData
 	}
-- 
2.43.0


From e24cbc9db0d82f03316735782bc84a7964124267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 12/76] fix: hhea extents, right side bearings and horizontal
 caret slopes

---
 hmtx/hmtx.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hmtx/hmtx.go b/hmtx/hmtx.go
index ec247c7..9e05ab7 100644
--- a/hmtx/hmtx.go
+++ b/hmtx/hmtx.go
@@ -190,30 +190,28 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 		if len(info.GlyphExtents) != len(info.Widths) {
 			panic("len(info.GlyphExtents) != len(info.Widths)")
 		}
-		first = true
-		for i, ext := range info.GlyphExtents {
-			if ext.IsZero() {
-				continue
-			}
-			rsb := info.Widths[i] - ext.URx
-			if first || rsb < hhea.MinRightSideBearing {
-				hhea.MinRightSideBearing = rsb
-			}
-			first = false
-		}
 	}
-
 	if info.GlyphExtents != nil {
+		var minRSB, xMaxExtent int
 		first = true
-		for _, ext := range info.GlyphExtents {
+		for i, ext := range info.GlyphExtents {
 			if ext.IsZero() {
 				continue
 			}
-			if first || ext.URx > hhea.XMaxExtent {
-				hhea.XMaxExtent = ext.URx
+			extent := int(lsbs[i]) + int(ext.URx) - int(ext.LLx)
+			if first || extent > xMaxExtent {
+				xMaxExtent = extent
+			}
+			if info.Widths != nil {
+				rsb := int(info.Widths[i]) - extent
+				if first || rsb < minRSB {
+					minRSB = rsb
+				}
 			}
 			first = false
 		}
+		hhea.MinRightSideBearing = clamp(minRSB)
+		hhea.XMaxExtent = clamp(xMaxExtent)
 	}
 
 	buf := bytes.NewBuffer(make([]byte, 0, hheaLength))
@@ -255,6 +253,11 @@ func (info *Info) Encode() (hheaData []byte, hmtxData []byte) {
 
 const hheaLength = 36
 
+// clamp converts x to the nearest value representable in the hhea table.
+func clamp(x int) funit.Int16 {
+	return funit.Int16(min(max(x, math.MinInt16), math.MaxInt16))
+}
+
 func toAngle(rise, run int16) float64 {
 	// slope = rise / run (rise = 1, run = 0 for vertical)
 	// angle = 0 for vertical, angle<0 for italic
@@ -285,7 +288,7 @@ func fromAngle(caretAngle float64) (rise, run int16) {
 		return -1, 0
 	}
 	rise0, run0 := bestRationalApproximation(s/c, 32767)
-	if s*float64(rise0) < 0 {
+	if s*float64(rise0)+c*float64(run0) < 0 {
 		rise0, run0 = -rise0, -run0
 	}
 	return int16(rise0), int16(run0)
-- 
2.43.0


From 4c9763ba43653f4dac0ef4ca221a621cdf5c39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 13/76] fix: CFF glyph bounding boxes must contain the curves

---
 cff/glyph.go    | 97 +++++++++++++++++++++++++++++++++++--------------
 cff/outlines.go | 34 +----------------
 2 files changed, 71 insertions(+), 60 deletions(-)

diff --git a/cff/glyph.go b/cff/glyph.go
index 2b0fda4..921c0b5 100644
--- a/cff/glyph.go
+++ b/cff/glyph.go
@@ -21,6 +21,8 @@ import (
 	"math"
 	"strings"
 
+	"seehuhn.de/go/geom/matrix"
+	"seehuhn.de/go/geom/rect"
 	"seehuhn.de/go/postscript/funit"
 )
 
@@ -79,41 +81,82 @@ func (g *Glyph) CurveTo(x1, y1, x2, y2, x3, y3 float64) {
 
 // Extent computes the Glyph extent in font design units
 func (g *Glyph) Extent() funit.Rect16 {
-	var left, right, top, bottom float64
+	bbox := g.bbox(matrix.Identity)
+	return funit.Rect16{
+		LLx: funit.Int16(math.Floor(bbox.LLx)),
+		LLy: funit.Int16(math.Floor(bbox.LLy)),
+		URx: funit.Int16(math.Ceil(bbox.URx)),
+		URy: funit.Int16(math.Ceil(bbox.URy)),
+	}
+}
+
+// bbox returns the smallest rectangle containing the glyph outline, after the
+// transformation M is applied.  For blank glyphs, the zero rectangle is
+// returned.
+func (g *Glyph) bbox(M matrix.Matrix) (bbox rect.Rect) {
 	first := true
-cmdLoop:
-	for _, cmd := range g.Cmds {
-		var x, y float64
-		switch cmd.Op {
-		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
-		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
-		default:
-			continue cmdLoop
-		}
-		if first || x < left {
-			left = x
+	add := func(x, y float64) {
+		if first || x < bbox.LLx {
+			bbox.LLx = x
 		}
-		if first || x > right {
-			right = x
+		if first || x > bbox.URx {
+			bbox.URx = x
 		}
-		if first || y < bottom {
-			bottom = y
+		if first || y < bbox.LLy {
+			bbox.LLy = y
 		}
-		if first || y > top {
-			top = y
+		if first || y > bbox.URy {
+			bbox.URy = y
 		}
 		first = false
 	}
-	return funit.Rect16{
-		LLx: funit.Int16(math.Floor(left)),
-		LLy: funit.Int16(math.Floor(bottom)),
-		URx: funit.Int16(math.Ceil(right)),
-		URy: funit.Int16(math.Ceil(top)),
+
+	var x0, y0 float64
+	for _, cmd := range g.Cmds {
+		switch cmd.Op {
+		case OpMoveTo, OpLineTo:
+			x0, y0 = M.Apply(cmd.Args[0], cmd.Args[1])
+			add(x0, y0)
+		case OpCurveTo:
+			x1, y1 := M.Apply(cmd.Args[0], cmd.Args[1])
+			x2, y2 := M.Apply(cmd.Args[2], cmd.Args[3])
+			x3, y3 := M.Apply(cmd.Args[4], cmd.Args[5])
+			xMin, xMax := bezierRange(x0, x1, x2, x3)
+			yMin, yMax := bezierRange(y0, y1, y2, y3)
+			add(xMin, yMin)
+			add(xMax, yMax)
+			x0, y0 = x3, y3
+		}
+	}
+	return bbox
+}
+
+// bezierRange returns the range of values taken by one coordinate of a cubic
+// Bezier curve.
+func bezierRange(a, b, c, d float64) (low, high float64) {
+	low, high = min(a, d), max(a, d)
+	if low <= min(b, c) && max(b, c) <= high {
+		return low, high
+	}
+
+	// The derivative is proportional to p*t^2 + q*t + r.
+	p := d - 3*c + 3*b - a
+	q := 2 * (c - 2*b + a)
+	r := b - a
+	var roots []float64
+	if D := q*q - 4*p*r; D >= 0 {
+		u := -(q + math.Copysign(math.Sqrt(D), q)) / 2
+		roots = append(roots, u/p, r/u)
+	}
+	for _, t := range roots {
+		if !(t > 0 && t < 1) {
+			continue
+		}
+		s := 1 - t
+		v := s*s*s*a + 3*s*s*t*b + 3*s*t*t*c + t*t*t*d
+		low, high = min(low, v), max(high, v)
 	}
+	return low, high
 }
 
 // GlyphOp is a CFF glyph drawing command.
diff --git a/cff/outlines.go b/cff/outlines.go
index 24af24e..b272370 100644
--- a/cff/outlines.go
+++ b/cff/outlines.go
@@ -138,37 +138,5 @@ func (o *Outlines) GlyphBBoxPDF(fm matrix.Matrix, gid glyph.ID) (bbox rect.Rect)
 	}
 	M = M.Mul(matrix.Scale(1000, 1000))
 
-	first := true
-cmdLoop:
-	for _, cmd := range g.Cmds {
-		var x, y float64
-		switch cmd.Op {
-		case OpMoveTo, OpLineTo:
-			x = cmd.Args[0]
-			y = cmd.Args[1]
-		case OpCurveTo:
-			x = cmd.Args[4]
-			y = cmd.Args[5]
-		default:
-			continue cmdLoop
-		}
-
-		x, y = M.Apply(x, y)
-
-		if first || x < bbox.LLx {
-			bbox.LLx = x
-		}
-		if first || x > bbox.URx {
-			bbox.URx = x
-		}
-		if first || y < bbox.LLy {
-			bbox.LLy = y
-		}
-		if first || y > bbox.URy {
-			bbox.URy = y
-		}
-		first = false
-	}
-
-	return bbox
+	return g.bbox(M)
 }
-- 
2.43.0


From c0b81537a1bb8d22276d1212e211b1f2e4084726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 14/76] fix: consistent glyph width and name queries

---
 font.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/font.go b/font.go
index 95e0adb..3bfb5c3 100644
--- a/font.go
+++ b/font.go
@@ -263,8 +263,8 @@ func (f *Font) Widths() []float64 {
 		}
 		return widths
 	case *glyf.Outlines:
-		for i := range widths {
-			widths[i] = float64(outlines.Widths[i])
+		for i, w := range outlines.Widths {
+			widths[i] = float64(w)
 		}
 		return widths
 	default:
@@ -278,8 +278,8 @@ func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
 	switch outlines := f.Outlines.(type) {
 	case *cff.Outlines:
-		for gid, g := range outlines.Glyphs {
-			widths[gid] = g.Width * f.FontMatrix[0]
+		for gid := range outlines.Glyphs {
+			widths[gid] = f.GlyphWidthPDF(glyph.ID(gid)) / 1000
 		}
 		return widths
 	case *glyf.Outlines:
@@ -422,7 +422,7 @@ func (f *Font) GlyphName(gid glyph.ID) string {
 	case *cff.Outlines:
 		return f.Glyphs[gid].Name
 	case *glyf.Outlines:
-		if f.Names == nil {
+		if int(gid) >= len(f.Names) {
 			return ""
 		}
 		return f.Names[gid]
-- 
2.43.0


From 492027f52f359f3038222bfad5423bcee4fd7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 15/76] fix: round and clamp metrics when writing fonts

---
 write.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/write.go b/write.go
index 01e0a03..8e15382 100644
--- a/write.go
+++ b/write.go
@@ -178,7 +178,7 @@ func (f *Font) makeHead(locaFormat int16) []byte {
 func (f *Font) makeHmtx() ([]byte, []byte) {
 	widths := make([]funit.Int16, f.NumGlyphs())
 	for i, w := range f.Widths() {
-		widths[i] = funit.Int16(w)
+		widths[i] = roundToInt16(w)
 	}
 
 	hmtxInfo := &hmtx.Info{
@@ -194,17 +194,17 @@ func (f *Font) makeHmtx() ([]byte, []byte) {
 }
 
 func (f *Font) makeOS2() []byte {
-	avgGlyphWidth := 0
+	var avgGlyphWidth float64
 	count := 0
 	ww := f.Widths()
 	for _, w := range ww {
 		if w > 0 {
-			avgGlyphWidth += int(w)
+			avgGlyphWidth += w
 			count++
 		}
 	}
 	if count > 0 {
-		avgGlyphWidth = (avgGlyphWidth + count/2) / count
+		avgGlyphWidth = math.Round(avgGlyphWidth / float64(count))
 	}
 
 	var familyClass int16
@@ -253,7 +253,7 @@ func (f *Font) makeOS2() []byte {
 		CapHeight:  f.CapHeight,
 		XHeight:    f.XHeight,
 
-		AvgGlyphWidth: funit.Int16(avgGlyphWidth),
+		AvgGlyphWidth: roundToInt16(avgGlyphWidth),
 
 		FamilyClass: familyClass,
 
@@ -301,14 +301,17 @@ func (f *Font) makeName() []byte {
 	return nameInfo.Encode(1)
 }
 
+// roundToInt16 returns the 16-bit integer closest to x.
+func roundToInt16(x float64) funit.Int16 {
+	x = math.Round(x)
+	return funit.Int16(min(max(x, math.MinInt16), math.MaxInt16))
+}
+
 func (f *Font) makePost() []byte {
-	r := func(x funit.Float64) funit.Int16 {
-		return funit.Int16(math.Round(float64(x)))
-	}
 	postInfo := &post.Info{
 		ItalicAngle:        f.ItalicAngle,
-		UnderlinePosition:  r(f.UnderlinePosition),
-		UnderlineThickness: r(f.UnderlineThickness),
+		UnderlinePosition:  roundToInt16(float64(f.UnderlinePosition)),
+		UnderlineThickness: roundToInt16(float64(f.UnderlineThickness)),
 		IsFixedPitch:       f.IsFixedPitch(),
 	}
 	if outlines, ok := f.Outlines.(*glyf.Outlines); ok {
-- 
2.43.0


From 4bbff1d5e1e10428bbaf42ec9fc3bbd51a12a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 16/76] fix: decode cmap subtables as specified, no aliasing of
 code points

---
 cmap/format0.go  | 17 ++++++++++++-----
 cmap/format12.go |  7 ++++++-
 cmap/format4.go  |  9 +++++++++
 cmap/format6.go  |  2 +-
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/cmap/format0.go b/cmap/format0.go
index 765f596..04deabe 100644
--- a/cmap/format0.go
+++ b/cmap/format0.go
@@ -26,15 +26,22 @@ import (
 //
 // https://docs.microsoft.com/en-us/typography/opentype/spec/cmap#format-0-byte-encoding-table
 func decodeFormat0(data []byte, code2rune func(c int) rune) (Subtable, error) {
-	if code2rune == nil {
-		code2rune = unicode
-	}
-
 	data = data[6:]
 	if len(data) != 256 {
 		return nil, fmt.Errorf("cmap: format 0: expected 256 bytes, got %d", len(data))
 	}
 
+	if code2rune != nil {
+		// the character codes are not Unicode code points
+		res := make(Format4)
+		for code, gid := range data {
+			if gid != 0 {
+				res[uint16(code2rune(code))] = glyph.ID(gid)
+			}
+		}
+		return res, nil
+	}
+
 	res := &Format0{}
 	copy(res.Data[:], data)
 
@@ -48,7 +55,7 @@ type Format0 struct {
 // Lookup returns the glyph index for the given rune.
 // If the rune is not found, Lookup returns 0 (corresponding to the ".notdef" glyph).
 func (cmap *Format0) Lookup(r rune) glyph.ID {
-	if r > 255 {
+	if r < 0 || r > 255 {
 		return 0
 	}
 	return glyph.ID(cmap.Data[r])
diff --git a/cmap/format12.go b/cmap/format12.go
index 06f727b..ebe1c46 100644
--- a/cmap/format12.go
+++ b/cmap/format12.go
@@ -71,7 +71,12 @@ func decodeFormat12(data []byte, code2rune func(c int) rune) (Subtable, error) {
 		}
 
 		for c := startCharCode; c <= endCharCode; c++ {
-			cmap[c] = glyph.ID(startGlyphID + c - startCharCode)
+			gid := startGlyphID + (c - startCharCode)
+			if gid > 0xFFFF {
+				// not a valid glyph ID
+				break
+			}
+			cmap[c] = glyph.ID(gid)
 		}
 	}
 
diff --git a/cmap/format4.go b/cmap/format4.go
index 21d841a..68b52d0 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -85,6 +85,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 			}
 			for idx := start; idx < end; idx++ {
 				c := glyph.ID(glyphIDArray[d+int(idx-start)])
+				if c != 0 {
+					c += glyph.ID(idDelta[k])
+				}
 				if c != 0 {
 					cmap[uint16(code2rune(int(idx)))] = c
 				}
@@ -96,6 +99,9 @@ func decodeFormat4(in []byte, code2rune func(c int) rune) (Subtable, error) {
 
 // Lookup implements the Subtable interface.
 func (cmap Format4) Lookup(r rune) glyph.ID {
+	if r < 0 || r > 0xFFFF {
+		return 0
+	}
 	return cmap[uint16(r)]
 }
 
@@ -130,6 +136,9 @@ func (cmap Format4) Encode(language uint16) []byte {
 
 	// Encode the data in the binary format
 	segCount := len(StartCode)
+	if 2*(8+4*segCount+len(GlyphIDArray)) > 65535 {
+		panic("too many mappings for a format 4 subtable")
+	}
 	sel := bits.Len(uint(segCount))
 	data := &cmapFormat4{
 		Format:        4,
diff --git a/cmap/format6.go b/cmap/format6.go
index 34b0f2c..f926977 100644
--- a/cmap/format6.go
+++ b/cmap/format6.go
@@ -40,7 +40,7 @@ func decodeFormat6(data []byte, code2rune func(c int) rune) (Subtable, error) {
 	data = data[10:]
 
 	res := make(Format4)
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && firstCode+i <= 0xFFFF; i++ {
 		gid := glyph.ID(data[2*i])<<8 | glyph.ID(data[2*i+1])
 		if gid != 0 {
 			res[uint16(code2rune(i+firstCode))] = gid
-- 
2.43.0


From 74cc75783376ddf6ec3e2b5eec961657816c2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 17/76] fix: format 12 segments must not wrap around glyph
 0xFFFF

---
 cmap/format12.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmap/format12.go b/cmap/format12.go
index ebe1c46..9d9e754 100644
--- a/cmap/format12.go
+++ b/cmap/format12.go
@@ -89,7 +89,8 @@ func (cmap Format12) Encode(language uint16) []byte {
 	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
 	segStart := 0
 	for i := 1; i < len(keys); i++ {
-		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 {
+		// Glyph IDs within a segment don't wrap around at 0xFFFF.
+		if keys[i] != keys[i-1]+1 || uint32(cmap[keys[i]]) != uint32(cmap[keys[i-1]])+1 {
 			ss = append(ss, format12segment{
 				StartCharCode: keys[segStart],
 				EndCharCode:   keys[i-1],
-- 
2.43.0


From fbc4f7ec24b5bb1afd7791d2a775ad8ea48d2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 18/76] fix: name and post tables which don't fit into 16-bit
 offsets, deterministic name storage

---
 name/name.go | 125 ++++++++++++++++++++++++++++++++++++++++-----------
 post/post.go |  37 +++++++++++++--
 write.go     |  33 +++++++++++---
 3 files changed, 160 insertions(+), 35 deletions(-)

diff --git a/name/name.go b/name/name.go
index 6515f8c..d477898 100644
--- a/name/name.go
+++ b/name/name.go
@@ -23,6 +23,8 @@ import (
 	"sort"
 	"unicode/utf16"
 
+	"golang.org/x/exp/maps"
+
 	"seehuhn.de/go/sfnt/mac"
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -75,6 +77,10 @@ func Decode(data []byte) (*Info, error) {
 	macTables := make(map[string]*Table)
 	msTables := make(map[string]*Table)
 
+	// Overlapping strings could expand to more data than can be stored
+	// in a "name" table.
+	b := newNameBuilder()
+
 recLoop:
 	for i := 0; i < numRec; i++ {
 		pos := recBase + i*12
@@ -104,7 +110,7 @@ recLoop:
 
 		// We ignore encodings we don't understand.
 		var val string
-		if platformID == 3 && encodingID == 1 { // Windows, Unicode BMP
+		if platformID == 3 && (encodingID <= 1 || encodingID == 10) { // Windows: Symbol, Unicode BMP, Unicode
 			val = utf16Decode(nameBytes)
 		} else if platformID == 1 && encodingID == 0 { // Macintosh, Roman
 			val = mac.Decode(nameBytes)
@@ -114,6 +120,10 @@ recLoop:
 		if val == "" {
 			continue recLoop
 		}
+		b.Add(nameBytes)
+		if !b.Fits() {
+			return nil, errMalformedNames
+		}
 
 		switch platformID {
 		case 1: // Macintosh
@@ -137,19 +147,23 @@ recLoop:
 		Mac:     macTables,
 		Windows: msTables,
 	}
+	if !res.Fits() {
+		return nil, errMalformedNames
+	}
 
 	return res, nil
 }
 
 // Encode converts a "name" table into its binary form.
+// The function panics, if there is too much data for a "name" table.
+// The [Info.Fits] method can be used to check for this in advance.
 func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	type recInfo struct {
 		PlatformID uint16
 		EncodingID uint16
 		LanguageID uint16
 		NameID     uint16
-		offset     uint16
-		length     uint16
+		val        []byte
 	}
 	var records []*recInfo
 
@@ -162,15 +176,14 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 			continue
 		}
 		for _, nameID := range t.keys() {
-			val := t.get(nameID)
-			offset, length := b.Add(mac.Encode(val))
+			val := mac.Encode(t.get(nameID))
+			b.Add(val)
 			rec := &recInfo{
 				PlatformID: 1, // Macintosh
 				EncodingID: 0, // Roman
 				LanguageID: languageID,
 				NameID:     uint16(nameID),
-				offset:     offset,
-				length:     length,
+				val:        val,
 			}
 			records = append(records, rec)
 		}
@@ -185,16 +198,15 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 			continue
 		}
 		for _, nameID := range t.keys() {
-			val := t.get(nameID)
 			// TODO(voss): implement support for different encodings
-			offset, length := b.Add(utf16Encode(val))
+			val := utf16Encode(t.get(nameID))
+			b.Add(val)
 			rec := &recInfo{
 				PlatformID: 3, // Windows
 				EncodingID: windowsEncodingID,
 				LanguageID: languageID,
 				NameID:     uint16(nameID),
-				offset:     offset,
-				length:     length,
+				val:        val,
 			}
 			records = append(records, rec)
 		}
@@ -214,6 +226,9 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	})
 
 	numRec := len(records)
+	if numRec > maxRecords || !b.Layout() {
+		panic("name table too large")
+	}
 	startOfRecords := 6
 	startOfStrings := startOfRecords + numRec*12
 	res := make([]byte, startOfStrings+len(b.data))
@@ -225,6 +240,8 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 	for i := 0; i < numRec; i++ {
 		rec := records[i]
 		base := startOfRecords + i*12
+		offset := b.idx[string(rec.val)]
+		length := len(rec.val)
 		res[base] = byte(rec.PlatformID >> 8)
 		res[base+1] = byte(rec.PlatformID)
 		res[base+2] = byte(rec.EncodingID >> 8)
@@ -233,36 +250,94 @@ func (info *Info) Encode(windowsEncodingID uint16) []byte {
 		res[base+5] = byte(rec.LanguageID)
 		res[base+6] = byte(rec.NameID >> 8)
 		res[base+7] = byte(rec.NameID)
-		res[base+8] = byte(rec.length >> 8)
-		res[base+9] = byte(rec.length)
-		res[base+10] = byte(rec.offset >> 8)
-		res[base+11] = byte(rec.offset)
+		res[base+8] = byte(length >> 8)
+		res[base+9] = byte(length)
+		res[base+10] = byte(offset >> 8)
+		res[base+11] = byte(offset)
 	}
 	copy(res[startOfStrings:], b.data)
 
 	return res
 }
 
+// maxRecords is the maximal number of name records in a "name" table.
+// The string storage follows the records and must start before offset 0x10000.
+const maxRecords = (0xFFFF - 6) / 12
+
+// Fits returns true if the information can be stored in a "name" table.
+func (info *Info) Fits() bool {
+	numRec := 0
+	b := newNameBuilder()
+	for _, tag := range appleBCP {
+		if t := info.Mac[tag]; t != nil {
+			for _, nameID := range t.keys() {
+				b.Add(mac.Encode(t.get(nameID)))
+				numRec++
+			}
+		}
+	}
+	for _, tag := range msBCP {
+		if t := info.Windows[tag]; t != nil {
+			for _, nameID := range t.keys() {
+				b.Add(utf16Encode(t.get(nameID)))
+				numRec++
+			}
+		}
+	}
+	return numRec <= maxRecords && b.Fits()
+}
+
+// nameBuilder collects the contents of the string storage area.
 type nameBuilder struct {
 	data []byte
-	idx  map[string]uint16
+	idx  map[string]int // maps strings to offsets
+
+	total   int // total length of all distinct strings
+	longest int // length of the longest string
 }
 
 func newNameBuilder() *nameBuilder {
 	return &nameBuilder{
-		idx: make(map[string]uint16),
+		idx: make(map[string]int),
+	}
+}
+
+// Add adds a string to the storage area.
+func (nb *nameBuilder) Add(b []byte) {
+	if _, ok := nb.idx[string(b)]; ok {
+		return
 	}
+	nb.idx[string(b)] = 0
+	nb.total += len(b)
+	nb.longest = max(nb.longest, len(b))
+}
+
+// Fits returns true if all lengths and offsets can be represented
+// as 16 bit values.
+func (nb *nameBuilder) Fits() bool {
+	return nb.longest <= 0xFFFF && nb.total-nb.longest <= 0xFFFF
 }
 
-func (nb *nameBuilder) Add(b []byte) (offs, length uint16) {
-	key := string(b)
-	if idx, ok := nb.idx[key]; ok {
-		return idx, uint16(len(b))
+// Layout assigns the offset for each string.  The longest string comes last,
+// so that as much data as possible can be reached using 16 bit offsets.
+// The return value indicates whether the data fits into the "name" table.
+func (nb *nameBuilder) Layout() bool {
+	if !nb.Fits() {
+		return false
+	}
+
+	keys := maps.Keys(nb.idx)
+	sort.Slice(keys, func(i, j int) bool {
+		if len(keys[i]) != len(keys[j]) {
+			return len(keys[i]) < len(keys[j])
+		}
+		return keys[i] < keys[j]
+	})
+	for _, key := range keys {
+		nb.idx[key] = len(nb.data)
+		nb.data = append(nb.data, key...)
 	}
-	idx := uint16(len(nb.data))
-	nb.idx[key] = idx
-	nb.data = append(nb.data, b...)
-	return idx, uint16(len(b))
+	return true
 }
 
 func utf16Encode(s string) []byte {
diff --git a/post/post.go b/post/post.go
index b042a68..3d26b76 100644
--- a/post/post.go
+++ b/post/post.go
@@ -111,8 +111,36 @@ func Read(r parser.ReadSeekSizer) (*Info, error) {
 	return info, nil
 }
 
+// maxCustomNames is the maximal number of distinct glyph names outside the
+// standard Macintosh set which can be stored in a "post" table.
+const maxCustomNames = 0x10000 - 258
+
+// Fits returns true if the glyph names can be stored in a "post" table.
+func (info *Info) Fits() bool {
+	if len(info.Names) > 0xFFFF {
+		return false
+	}
+	custom := make(map[string]bool)
+	for _, name := range info.Names {
+		if len(name) > 255 {
+			return false
+		}
+		custom[name] = true
+	}
+	for _, name := range macRoman {
+		delete(custom, name)
+	}
+	return len(custom) <= maxCustomNames
+}
+
 // Encode encodes the "post" table.
+// The function panics, if the glyph names cannot be represented.
+// The [Info.Fits] method can be used to check for this in advance.
 func (info *Info) Encode() []byte {
+	if !info.Fits() {
+		panic("glyph names don't fit into the post table")
+	}
+
 	var version uint32
 	if info.Names == nil {
 		version = 0x00030000
@@ -138,19 +166,20 @@ func (info *Info) Encode() []byte {
 		numGlyphs := len(info.Names)
 		buf.Write([]byte{byte(numGlyphs >> 8), byte(numGlyphs)})
 
-		mac := make(map[string]int, len(macRoman))
+		nameIdx := make(map[string]int, len(macRoman))
 		for i, name := range macRoman {
-			mac[name] = i
+			nameIdx[name] = i
 		}
 		var stringData []byte
-		numStrings := 0
+		numStrings := 0 // identical names share the same string
 
 		for _, name := range info.Names {
-			idx, ok := mac[name]
+			idx, ok := nameIdx[name]
 			if !ok {
 				idx = len(macRoman) + numStrings
 				stringData = append(stringData, byte(len(name)))
 				stringData = append(stringData, name...)
+				nameIdx[name] = idx
 				numStrings++
 			}
 			buf.Write([]byte{byte(idx >> 8), byte(idx)})
diff --git a/write.go b/write.go
index 8e15382..11adc5f 100644
--- a/write.go
+++ b/write.go
@@ -18,6 +18,7 @@ package sfnt
 
 import (
 	"bytes"
+	"errors"
 	"io"
 	"math"
 	"time"
@@ -49,8 +50,16 @@ func (f *Font) Write(w io.Writer) (int64, error) {
 	}
 
 	tableData["OS/2"] = f.makeOS2()
-	tableData["name"] = f.makeName()
-	tableData["post"] = f.makePost()
+	nameData, err := f.makeName()
+	if err != nil {
+		return 0, err
+	}
+	tableData["name"] = nameData
+	postData, err := f.makePost()
+	if err != nil {
+		return 0, err
+	}
+	tableData["post"] = postData
 
 	var locaFormat int16
 	var scalerType uint32
@@ -264,7 +273,7 @@ func (f *Font) makeOS2() []byte {
 	return os2Info.Encode()
 }
 
-func (f *Font) makeName() []byte {
+func (f *Font) makeName() ([]byte, error) {
 	day := f.ModificationTime
 	if day.IsZero() {
 		day = f.CreationTime
@@ -298,7 +307,16 @@ func (f *Font) makeName() []byte {
 		},
 	}
 
-	return nameInfo.Encode(1)
+	if !nameInfo.Fits() {
+		// The Macintosh names only repeat the information from the Windows
+		// names.
+		nameInfo.Mac = nil
+	}
+	if !nameInfo.Fits() {
+		return nil, errors.New("sfnt: too much data for the name table")
+	}
+
+	return nameInfo.Encode(1), nil
 }
 
 // roundToInt16 returns the 16-bit integer closest to x.
@@ -307,7 +325,7 @@ func roundToInt16(x float64) funit.Int16 {
 	return funit.Int16(min(max(x, math.MinInt16), math.MaxInt16))
 }
 
-func (f *Font) makePost() []byte {
+func (f *Font) makePost() ([]byte, error) {
 	postInfo := &post.Info{
 		ItalicAngle:        f.ItalicAngle,
 		UnderlinePosition:  roundToInt16(float64(f.UnderlinePosition)),
@@ -317,7 +335,10 @@ func (f *Font) makePost() []byte {
 	if outlines, ok := f.Outlines.(*glyf.Outlines); ok {
 		postInfo.Names = outlines.Names
 	}
-	return postInfo.Encode()
+	if !postInfo.Fits() {
+		return nil, errors.New("sfnt: glyph names don't fit into the post table")
+	}
+	return postInfo.Encode(), nil
 }
 
 func (f *Font) makeCFF(outlines *cff.Outlines) ([]byte, error) {
-- 
2.43.0


From 7340b6d5c97567fce68dd782436e05dcb6166288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 19/76] fix: OpenType script tags with trailing spaces,
 deterministic choice of tags

---
 opentype/gtab/locale.go     | 13 ++++++++-----
 opentype/gtab/scriptlist.go |  6 +++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/opentype/gtab/locale.go b/opentype/gtab/locale.go
index 01b5e93..a42f8c7 100644
--- a/opentype/gtab/locale.go
+++ b/opentype/gtab/locale.go
@@ -41,7 +41,7 @@ func otfToBCP47(script otfScript, lang otfLang) (language.Tag, error) {
 		tag += "-" + bcpScript
 	}
 
-	tag += "-x-" + string(script)
+	tag += "-x-" + strings.TrimRight(string(script), " ")
 	for len(lang) > 0 && lang[len(lang)-1] == ' ' {
 		lang = lang[:len(lang)-1]
 	}
@@ -66,6 +66,9 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		if script == "dflt" {
 			script = "DFLT"
 		}
+		for len(script) < 4 {
+			script += " "
+		}
 		if len(m) > 2 {
 			lang = strings.ToUpper(m[2])
 			for len(lang) < 4 {
@@ -87,17 +90,17 @@ func bcp47ToOtf(tag language.Tag) (otfScript, otfLang, error) {
 		scriptTag, _ := tag.Script()
 		bcpScript := scriptTag.String()
 
+		// If there is more than one candidate, make sure that the choice
+		// does not depend on the map iteration order.
 		for key, val := range langBcp47 {
-			if val == bcpLang {
+			if val == bcpLang && (lang == "" || string(key) < lang) {
 				lang = string(key)
-				break
 			}
 		}
 
 		for key, val := range scriptBcp47 {
-			if val == bcpScript {
+			if val == bcpScript && (script == "" || string(key) < script) {
 				script = string(key)
-				break
 			}
 		}
 	}
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 51de9bc..456d1fa 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -110,7 +110,7 @@ func (info ScriptListInfo) readScriptTable(script otfScript, p *parser.Parser, p
 	defaultLangSysOffset := uint16(data[0])<<8 | uint16(data[1])
 	langSysCount := uint16(data[2])<<8 | uint16(data[3])
 
-	if defaultLangSysOffset > 0 && defaultLangSysOffset < 4+6*langSysCount {
+	if defaultLangSysOffset > 0 && int(defaultLangSysOffset) < 4+6*int(langSysCount) {
 		return &parser.InvalidFontError{
 			SubSystem: "sfnt/gtab",
 			Reason:    "invalid defaultLangSysOffset",
@@ -188,7 +188,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		}
 	}
 
-	featureIndices := make([]FeatureIndex, featureIndexCount)
+	featureIndices := make([]FeatureIndex, 0, featureIndexCount)
 	for i := 0; i < int(featureIndexCount); i++ {
 		idx, err := p.ReadUint16()
 		if err != nil {
@@ -196,7 +196,7 @@ func readLangSysTable(p *parser.Parser, pos int64) (*Features, error) {
 		} else if idx == 0xFFFF {
 			continue
 		}
-		featureIndices[i] = FeatureIndex(idx)
+		featureIndices = append(featureIndices, FeatureIndex(idx))
 	}
 
 	return &Features{
-- 
2.43.0


From e61691fde99fd140a0a706a0497896f0c406d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:32 +0000
Subject: [PATCH 20/76] fix: refuse GSUB/GPOS/GDEF data which does not fit,
 complete the large table and GPOS5 encodings

---
 opentype/classdef/classdef.go |  32 ++++++--
 opentype/gdef/gdef.go         | 141 +++++++++++++++++++++++---------
 opentype/gtab/featurelist.go  |   7 ++
 opentype/gtab/gpos.go         |  22 +++--
 opentype/gtab/gpos4.go        |   7 +-
 opentype/gtab/gpos5.go        | 147 +++++++++++++++++++++++++++++++---
 opentype/gtab/gpos6.go        |   7 +-
 opentype/gtab/gsub.go         |  30 ++++---
 opentype/gtab/gtab.go         |  84 +++++++++++++++----
 opentype/gtab/limits.go       |  60 ++++++++++++++
 opentype/gtab/lookup.go       | 111 ++++++++++++++++++-------
 opentype/gtab/nested.go       |  44 +++++-----
 opentype/gtab/scriptlist.go   |   6 +-
 13 files changed, 559 insertions(+), 139 deletions(-)
 create mode 100644 opentype/gtab/limits.go

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 03a3a48..4369fa0 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -20,6 +20,7 @@ package classdef
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
@@ -149,7 +150,10 @@ type encInfo struct {
 func (info Table) getEncInfo() *encInfo {
 	minGid := glyph.ID(0xFFFF)
 	maxGid := glyph.ID(0)
-	for key := range info {
+	for key, class := range info {
+		if class == 0 {
+			continue
+		}
 		if key < minGid {
 			minGid = key
 		}
@@ -158,7 +162,16 @@ func (info Table) getEncInfo() *encInfo {
 		}
 	}
 
-	format1Size := 6 + 2*(int(maxGid)-int(minGid)+1)
+	if minGid > maxGid { // all glyphs are in class 0
+		return nil
+	}
+
+	numGlyphs := int(maxGid) - int(minGid) + 1
+	format1Size := 6 + 2*numGlyphs
+	if numGlyphs > math.MaxUint16 {
+		// the number of glyphs does not fit into the 16 bit count
+		format1Size = math.MaxInt
+	}
 
 	segCount := 0
 	segStart := -1
@@ -182,6 +195,9 @@ func (info Table) getEncInfo() *encInfo {
 	}
 
 	format2Size := 4 + 6*segCount
+	if segCount > math.MaxUint16 {
+		format2Size = math.MaxInt
+	}
 
 	return &encInfo{
 		minGid:      minGid,
@@ -193,10 +209,10 @@ func (info Table) getEncInfo() *encInfo {
 
 // AppendLen returns the size of the binary table representation.
 func (info Table) AppendLen() int {
-	if len(info) == 0 {
+	encInfo := info.getEncInfo()
+	if encInfo == nil {
 		return 4
 	}
-	encInfo := info.getEncInfo()
 	if encInfo.format1Size < encInfo.format2Size {
 		return encInfo.format1Size
 	}
@@ -205,11 +221,13 @@ func (info Table) AppendLen() int {
 
 // Append appends the binary table representation to the given buffer.
 func (info Table) Append(buf []byte) []byte {
-	if len(info) == 0 {
+	encInfo := info.getEncInfo()
+	if encInfo == nil {
 		return append(buf, 0, 2, 0, 0)
 	}
-
-	encInfo := info.getEncInfo()
+	if encInfo.format1Size == math.MaxInt && encInfo.format2Size == math.MaxInt {
+		panic("too many classes for a class definition table")
+	}
 
 	if encInfo.format1Size <= encInfo.format2Size {
 		count := encInfo.maxGid - encInfo.minGid + 1
diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index 0dd5540..cf38b63 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -19,6 +19,8 @@ package gdef
 
 import (
 	"fmt"
+	"math"
+	"sort"
 
 	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/classdef"
@@ -135,39 +137,94 @@ func Read(r parser.ReadSeekSizer) (*Table, error) {
 
 	_ = itemVarStoreOffset // TODO(voss): implement
 
+	if _, ok := table.layout(); !ok {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gdef",
+			Reason:    "too much data",
+		}
+	}
+
 	return table, nil
 }
 
-// Encode converts the GDEF table to its binary form.
-func (table *Table) Encode() []byte {
-	version := uint32(0x00010000)
-	total := 12
+// Parts of a GDEF table, used as indices into gdefLayout.offs.
+const (
+	partGlyphClass = iota
+	partMarkAttachClass
+	partMarkGlyphSets
+	numParts
+)
 
-	if table.MarkGlyphSets != nil {
-		version = 0x00010002
-		total = 14
-	}
+type gdefLayout struct {
+	order []int         // the parts, in the order they are written
+	offs  [numParts]int // the offset of each part, or 0
+	total int           // total size of the GDEF table
+}
 
-	var glyphClassDefOffset int
+// layout determines the positions of the different parts of the GDEF table.
+// The boolean return value indicates whether the data can be represented.
+func (table *Table) layout() (*gdefLayout, bool) {
+	var size [numParts]int
+	res := &gdefLayout{}
+	headerLen := 12
 	if table.GlyphClass != nil {
-		glyphClassDefOffset = total
-		total += table.GlyphClass.AppendLen()
+		size[partGlyphClass] = table.GlyphClass.AppendLen()
+		res.order = append(res.order, partGlyphClass)
 	}
-	var markAttachClassDefOffset int
 	if table.MarkAttachClass != nil {
-		markAttachClassDefOffset = total
-		total += table.MarkAttachClass.AppendLen()
+		size[partMarkAttachClass] = table.MarkAttachClass.AppendLen()
+		res.order = append(res.order, partMarkAttachClass)
 	}
-	var markGlyphSetsDefOffset int
 	if table.MarkGlyphSets != nil {
-		markGlyphSetsDefOffset = total
-		total += 4 + 4*len(table.MarkGlyphSets)
+		headerLen = 14
+		length := 4 + 4*len(table.MarkGlyphSets)
 		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			total += cov.EncodeLen()
+			length += set.ToTable().EncodeLen()
 		}
+		size[partMarkGlyphSets] = length
+		res.order = append(res.order, partMarkGlyphSets)
+	}
+
+	place := func() bool {
+		res.total = headerLen
+		ok := true
+		for _, part := range res.order {
+			ok = ok && res.total <= math.MaxUint16
+			res.offs[part] = res.total
+			res.total += size[part]
+		}
+		return ok
+	}
+	ok := place()
+	if !ok {
+		// write the largest part last
+		sort.SliceStable(res.order, func(i, j int) bool {
+			return size[res.order[i]] < size[res.order[j]]
+		})
+		ok = place()
+	}
+
+	ok = ok && len(table.MarkGlyphSets) <= math.MaxUint16
+	return res, ok
+}
+
+// Encode converts the GDEF table to its binary form.
+// The function panics, if there is too much data for a GDEF table.
+func (table *Table) Encode() []byte {
+	version := uint32(0x00010000)
+	if table.MarkGlyphSets != nil {
+		version = 0x00010002
 	}
 
+	layout, ok := table.layout()
+	if !ok {
+		panic("too much data for a GDEF table")
+	}
+	total := layout.total
+	glyphClassDefOffset := layout.offs[partGlyphClass]
+	markAttachClassDefOffset := layout.offs[partMarkAttachClass]
+	markGlyphSetsDefOffset := layout.offs[partMarkGlyphSets]
+
 	buf := make([]byte, 12, total)
 	// We always write table version 1.0:
 	buf[0] = byte(version >> 24)
@@ -181,28 +238,34 @@ func (table *Table) Encode() []byte {
 	if version >= 0x00010002 {
 		buf = append(buf, byte(markGlyphSetsDefOffset>>8), byte(markGlyphSetsDefOffset))
 	}
-	if glyphClassDefOffset > 0 {
-		buf = table.GlyphClass.Append(buf)
-	}
-	if markAttachClassDefOffset > 0 {
-		buf = table.MarkAttachClass.Append(buf)
+	for _, part := range layout.order {
+		switch part {
+		case partGlyphClass:
+			buf = table.GlyphClass.Append(buf)
+		case partMarkAttachClass:
+			buf = table.MarkAttachClass.Append(buf)
+		case partMarkGlyphSets:
+			buf = table.appendMarkGlyphSets(buf)
+		}
 	}
-	if markGlyphSetsDefOffset > 0 {
-		markGlyphSetCount := len(table.MarkGlyphSets)
+	return buf
+}
+
+func (table *Table) appendMarkGlyphSets(buf []byte) []byte {
+	markGlyphSetCount := len(table.MarkGlyphSets)
+	buf = append(buf,
+		0, 1, // format
+		byte(markGlyphSetCount>>8), byte(markGlyphSetCount))
+	offs := 4 + 4*markGlyphSetCount
+	for _, set := range table.MarkGlyphSets {
 		buf = append(buf,
-			0, 1, // format
-			byte(markGlyphSetCount>>8), byte(markGlyphSetCount))
-		offs := 4 + 4*markGlyphSetCount
-		for _, set := range table.MarkGlyphSets {
-			buf = append(buf,
-				byte(offs>>24), byte(offs>>16), byte(offs>>8), byte(offs))
-			cov := set.ToTable()
-			offs += cov.EncodeLen()
-		}
-		for _, set := range table.MarkGlyphSets {
-			cov := set.ToTable()
-			buf = append(buf, cov.Encode()...)
-		}
+			byte(offs>>24), byte(offs>>16), byte(offs>>8), byte(offs))
+		cov := set.ToTable()
+		offs += cov.EncodeLen()
+	}
+	for _, set := range table.MarkGlyphSets {
+		cov := set.ToTable()
+		buf = append(buf, cov.Encode()...)
 	}
 	return buf
 }
diff --git a/opentype/gtab/featurelist.go b/opentype/gtab/featurelist.go
index 91bdd6a..e1db356 100644
--- a/opentype/gtab/featurelist.go
+++ b/opentype/gtab/featurelist.go
@@ -18,6 +18,7 @@ package gtab
 
 import (
 	"fmt"
+	"strconv"
 
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -130,6 +131,12 @@ func (info FeatureListInfo) encode() []byte {
 	if largestOffset > 0xFFFF {
 		panic("featureListInfo too large")
 	}
+	for _, f := range info {
+		if len(f.Tag) != 4 {
+			panic("invalid feature tag " + strconv.Quote(f.Tag))
+		}
+		checkUint16(len(f.Lookups))
+	}
 
 	buf := make([]byte, totalSize)
 	buf[0] = byte(len(info) >> 8)
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index dfdf87d..825f29e 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -43,14 +43,21 @@ func readGposSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gposReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GPOS subtable format %d.%d",
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	subtable, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	if !canEncode(subtable) {
+		return nil, errSubtableTooLarge
+	}
+	return subtable, nil
 }
 
 // https://docs.microsoft.com/en-us/typography/opentype/spec/gpos#gsubLookupTypeEnum
@@ -218,6 +225,7 @@ func (l *Gpos1_2) encode() []byte {
 		total += l.Adjust[0].encodeLen(valueFormat) * valueCount
 	}
 	coverageOffset := total
+	checkUint16(valueCount, coverageOffset)
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -398,6 +406,7 @@ func (l Gpos2_1) encode() []byte {
 	pairSetCount := len(adjust)
 	total := 10 + 2*pairSetCount
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += cov.EncodeLen()
 	var valueFormat1, valueFormat2 uint16
 	for _, adj := range adjust {
@@ -408,7 +417,7 @@ func (l Gpos2_1) encode() []byte {
 	}
 	pairSetOffsets := make([]uint16, pairSetCount)
 	for i, adj := range adjust {
-		pairSetOffsets[i] = uint16(total)
+		pairSetOffsets[i] = toUint16(total)
 		total += 2 + 2*len(adj)
 		for _, v := range adj {
 			total += v.First.encodeLen(valueFormat1)
@@ -432,6 +441,7 @@ func (l Gpos2_1) encode() []byte {
 
 	for _, adj := range adjust {
 		pairValueCount := len(adj)
+		checkUint16(pairValueCount)
 		buf = append(buf, byte(pairValueCount>>8), byte(pairValueCount))
 
 		keys := maps.Keys(adj)
@@ -609,6 +619,7 @@ func (l *Gpos2_2) encode() []byte {
 	total += l.Class1.AppendLen()
 	classDef2Offset := total
 	total += l.Class2.AppendLen()
+	checkUint16(class1Count, class2Count, coverageOffset, classDef1Offset, classDef2Offset)
 
 	res := make([]byte, 0, total)
 	res = append(res,
@@ -755,15 +766,16 @@ func (l *Gpos3_1) encode() []byte {
 	exitOffs := make([]uint16, entryExitCount)
 	for i, rec := range l.Records {
 		if !rec.Entry.IsEmpty() {
-			entryOffs[i] = uint16(total)
+			entryOffs[i] = toUint16(total)
 			total += 6
 		}
 		if !rec.Exit.IsEmpty() {
-			exitOffs[i] = uint16(total)
+			exitOffs[i] = toUint16(total)
 			total += 6
 		}
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Cov.EncodeLen()
 
 	res := make([]byte, 0, total)
diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 87d534a..4143080 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -17,6 +17,8 @@
 package gtab
 
 import (
+	"math"
+
 	"seehuhn.de/go/sfnt/opentype/anchor"
 	"seehuhn.de/go/sfnt/opentype/coverage"
 	"seehuhn.de/go/sfnt/opentype/markarray"
@@ -172,7 +174,7 @@ func (l *Gpos4_1) countMarkClasses() int {
 			maxClass = rec.Class
 		}
 	}
-	return int(maxClass) + 1
+	return min(int(maxClass)+1, math.MaxUint16)
 }
 
 // encodeLen implements the [Subtable] interface.
@@ -208,6 +210,8 @@ func (l *Gpos4_1) encode() []byte {
 	markArrayOffset := total
 	total += 2 + (4+6)*markCount
 	baseArrayOffset := total
+	checkUint16(baseArrayOffset, baseCount, markClassCount,
+		2+2*baseCount*markClassCount+5) // leave space for one anchor table
 	total += 2
 	for _, row := range l.BaseArray {
 		for _, rec := range row {
@@ -256,6 +260,7 @@ func (l *Gpos4_1) encode() []byte {
 				res = append(res, 0, 0)
 				continue
 			}
+			checkUint16(offs)
 			res = append(res,
 				byte(offs>>8), byte(offs),
 			)
diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index a7dd3ed..cc97b3d 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -17,6 +17,8 @@
 package gtab
 
 import (
+	"math"
+
 	"seehuhn.de/go/sfnt/opentype/anchor"
 	"seehuhn.de/go/sfnt/opentype/coverage"
 	"seehuhn.de/go/sfnt/opentype/markarray"
@@ -101,20 +103,37 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
-		ligAttach := make([][]anchor.Table, componentCount)
+		numOffsets := int(componentCount) * markClassCount
+		if numOffsets > (65536-6-2)/2 {
+			// Offsets are 16-bit from ligAttachPos, and there must still be
+			// space for at least one anchor table.
+			return nil, &parser.InvalidFontError{
+				SubSystem: "sfnt/opentype/gtab",
+				Reason:    "GPOS5.1 table too large",
+			}
+		}
+		anchorOffsets := make([]uint16, numOffsets)
+		for j := range anchorOffsets {
+			anchorOffsets[j], err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+		}
 
-		for j := 0; j < int(componentCount); j++ {
+		ligAttach := make([][]anchor.Table, componentCount)
+		for j := range ligAttach {
 			row := make([]anchor.Table, markClassCount)
-			for j := range row {
-				if offsets[j] == 0 {
+			for k := range row {
+				offs := anchorOffsets[j*markClassCount+k]
+				if offs == 0 {
 					continue
 				}
-				row[j], err = anchor.Read(p, ligAttachPos+int64(offsets[j]))
+				row[k], err = anchor.Read(p, ligAttachPos+int64(offs))
 				if err != nil {
 					return nil, err
 				}
 			}
-			ligAttach[i] = row
+			ligAttach[j] = row
 		}
 
 		ligArray[i] = ligAttach
@@ -134,12 +153,120 @@ func (l *Gpos5_1) apply(ctx *Context, a, b int) int {
 	return -1
 }
 
-// encode implements the [Subtable] interface.
-func (l *Gpos5_1) encode() []byte {
-	panic("not implemented")
+func (l *Gpos5_1) countMarkClasses() int {
+	for _, ligAttach := range l.LigArray {
+		if len(ligAttach) > 0 {
+			return len(ligAttach[0])
+		}
+	}
+
+	var maxClass uint16
+	for _, rec := range l.MarkArray {
+		maxClass = max(maxClass, rec.Class)
+	}
+	return min(int(maxClass)+1, math.MaxUint16)
+}
+
+// ligAttachLen returns the size of a "LigatureAttach" table.
+func ligAttachLen(ligAttach [][]anchor.Table) int {
+	total := 2
+	for _, row := range ligAttach {
+		for _, rec := range row {
+			total += 2
+			if !rec.IsEmpty() {
+				total += 6
+			}
+		}
+	}
+	return total
 }
 
 // encodeLen implements the [Subtable] interface.
 func (l *Gpos5_1) encodeLen() int {
-	panic("not implemented")
+	total := 12
+	total += l.MarkCov.EncodeLen()
+	total += l.LigCov.EncodeLen()
+	total += 2 + (4+6)*len(l.MarkArray)
+	total += 2 + 2*len(l.LigArray)
+	for _, ligAttach := range l.LigArray {
+		total += ligAttachLen(ligAttach)
+	}
+	return total
+}
+
+// encode implements the [Subtable] interface.
+func (l *Gpos5_1) encode() []byte {
+	markCount := len(l.MarkArray)
+	markClassCount := l.countMarkClasses()
+	ligCount := len(l.LigArray)
+
+	total := 12
+	markCoverageOffset := total
+	total += l.MarkCov.EncodeLen()
+	ligCoverageOffset := total
+	total += l.LigCov.EncodeLen()
+	markArrayOffset := total
+	total += 2 + (4+6)*markCount
+	ligArrayOffset := total
+	checkUint16(ligArrayOffset, ligCount, markClassCount)
+
+	res := make([]byte, 0, l.encodeLen())
+	res = append(res,
+		0, 1, // posFormat
+		byte(markCoverageOffset>>8), byte(markCoverageOffset),
+		byte(ligCoverageOffset>>8), byte(ligCoverageOffset),
+		byte(markClassCount>>8), byte(markClassCount),
+		byte(markArrayOffset>>8), byte(markArrayOffset),
+		byte(ligArrayOffset>>8), byte(ligArrayOffset),
+	)
+
+	res = append(res, l.MarkCov.Encode()...)
+	res = append(res, l.LigCov.Encode()...)
+
+	res = append(res, byte(markCount>>8), byte(markCount))
+	offs := 2 + 4*markCount
+	for _, rec := range l.MarkArray {
+		res = append(res,
+			byte(rec.Class>>8), byte(rec.Class),
+			byte(offs>>8), byte(offs),
+		)
+		offs += 6
+	}
+	for _, rec := range l.MarkArray {
+		res = rec.Append(res)
+	}
+
+	res = append(res, byte(ligCount>>8), byte(ligCount))
+	offs = 2 + 2*ligCount
+	for _, ligAttach := range l.LigArray {
+		checkUint16(offs)
+		res = append(res, byte(offs>>8), byte(offs))
+		offs += ligAttachLen(ligAttach)
+	}
+	for _, ligAttach := range l.LigArray {
+		componentCount := len(ligAttach)
+		offs := 2 + 2*componentCount*markClassCount
+		checkUint16(componentCount, offs+5) // leave space for one anchor table
+		res = append(res, byte(componentCount>>8), byte(componentCount))
+		for _, row := range ligAttach {
+			for _, rec := range row {
+				if rec.IsEmpty() {
+					res = append(res, 0, 0)
+					continue
+				}
+				checkUint16(offs)
+				res = append(res, byte(offs>>8), byte(offs))
+				offs += 6
+			}
+		}
+		for _, row := range ligAttach {
+			for _, rec := range row {
+				if !rec.IsEmpty() {
+					res = rec.Append(res)
+				}
+			}
+		}
+	}
+
+	return res
 }
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index 29d78da..ab2800f 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -17,6 +17,8 @@
 package gtab
 
 import (
+	"math"
+
 	"seehuhn.de/go/sfnt/opentype/anchor"
 	"seehuhn.de/go/sfnt/opentype/coverage"
 	"seehuhn.de/go/sfnt/opentype/markarray"
@@ -170,7 +172,7 @@ func (l *Gpos6_1) countMarkClasses() int {
 			maxClass = rec.Class
 		}
 	}
-	return int(maxClass) + 1
+	return min(int(maxClass)+1, math.MaxUint16)
 }
 
 // encodeLen implements the [Subtable] interface.
@@ -206,6 +208,8 @@ func (l *Gpos6_1) encode() []byte {
 	mark1ArrayOffset := total
 	total += 2 + (4+6)*mark1Count
 	mark2ArrayOffset := total
+	checkUint16(mark2ArrayOffset, mark2Count, markClassCount,
+		2+2*mark2Count*markClassCount+5) // leave space for one anchor table
 	total += 2
 	for _, row := range l.Mark2Array {
 		for _, rec := range row {
@@ -254,6 +258,7 @@ func (l *Gpos6_1) encode() []byte {
 				res = append(res, 0, 0)
 				continue
 			}
+			checkUint16(offs)
 			res = append(res,
 				byte(offs>>8), byte(offs),
 			)
diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 4b372a9..2fd363a 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -39,14 +39,21 @@ func readGsubSubtable(p *parser.Parser, pos int64, meta *LookupMetaInfo) (Subtab
 	}
 
 	reader, ok := gsubReaders[10*meta.LookupType+format]
-	if !ok {
+	if !ok || meta.LookupType > 9 || format > 9 {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/opentype/gtab",
 			Reason: fmt.Sprintf("unknown GSUB subtable format %d.%d",
 				meta.LookupType, format),
 		}
 	}
-	return reader(p, pos)
+	subtable, err := reader(p, pos)
+	if err != nil {
+		return nil, err
+	}
+	if !canEncode(subtable) {
+		return nil, errSubtableTooLarge
+	}
+	return subtable, nil
 }
 
 var gsubReaders = map[uint16]func(p *parser.Parser, pos int64) (Subtable, error){
@@ -187,6 +194,7 @@ func (l *Gsub1_2) encodeLen() int {
 func (l *Gsub1_2) encode() []byte {
 	n := len(l.SubstituteGlyphIDs)
 	covOffs := 6 + 2*n
+	checkUint16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -303,9 +311,10 @@ func (l *Gsub2_1) encode() []byte {
 
 	sequenceOffsets := make([]uint16, sequenceCount)
 	for i, repl := range l.Repl {
-		sequenceOffsets[i] = uint16(covOffs)
+		sequenceOffsets[i] = toUint16(covOffs)
 		covOffs += 2 + 2*len(repl)
 	}
+	checkUint16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -427,9 +436,10 @@ func (l *Gsub3_1) encode() []byte {
 
 	alternateSetOffsets := make([]uint16, alternateSetCount)
 	for i, repl := range l.Alternates {
-		alternateSetOffsets[i] = uint16(covOffs)
+		alternateSetOffsets[i] = toUint16(covOffs)
 		covOffs += 2 + 2*len(repl)
 	}
+	checkUint16(covOffs)
 
 	buf := make([]byte, covOffs+l.Cov.EncodeLen())
 	// buf[0] = 0
@@ -644,7 +654,7 @@ func (l *Gsub4_1) encode() []byte {
 	total := 6 + 2*ligatureSetCount
 	ligatureSetOffsets := make([]uint16, ligatureSetCount)
 	for i, repl := range l.Repl {
-		ligatureSetOffsets[i] = uint16(total)
+		ligatureSetOffsets[i] = toUint16(total)
 		total += 2 + 2*len(repl)
 		for _, lig := range repl {
 			total += 4 + 2*len(lig.In)
@@ -652,9 +662,7 @@ func (l *Gsub4_1) encode() []byte {
 	}
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
-	if coverageOffset > 0xFFFF {
-		panic("coverage offset overflow")
-	}
+	checkUint16(coverageOffset)
 
 	buf := make([]byte, 0, total)
 
@@ -671,6 +679,7 @@ func (l *Gsub4_1) encode() []byte {
 		buf = append(buf, byte(ligatureCount>>8), byte(ligatureCount))
 		pos := 2 + 2*ligatureCount
 		for _, lig := range repl {
+			checkUint16(pos)
 			buf = append(buf, byte(pos>>8), byte(pos))
 			pos += 4 + 2*len(lig.In)
 		}
@@ -822,15 +831,16 @@ func (l *Gsub8_1) encode() []byte {
 	total += 2 * lookaheadGlyphCount
 	total += 2 * glyphCount
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Input.EncodeLen()
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, cov := range l.Backtrack {
-		backtrackCoverageOffsets[i] = uint16(total)
+		backtrackCoverageOffsets[i] = toUint16(total)
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, cov := range l.Lookahead {
-		lookaheadCoverageOffsets[i] = uint16(total)
+		lookaheadCoverageOffsets[i] = toUint16(total)
 		total += cov.EncodeLen()
 	}
 
diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index a9593fb..5e4ccf7 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -19,6 +19,8 @@ package gtab
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
+	"sort"
 
 	"seehuhn.de/go/sfnt/parser"
 )
@@ -156,32 +158,86 @@ func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error)
 		return nil, err
 	}
 
+	if !info.canEncode() {
+		return nil, &parser.InvalidFontError{
+			SubSystem: "sfnt/opentype/gtab",
+			Reason:    fmt.Sprintf("too much data in %s table", tp),
+		}
+	}
+
 	_ = FeatureVariationsOffset // TODO(voss): implement this
 
 	return info, nil
 }
 
+// canEncode returns true if the table can be represented in a font file.
+// This may be false for data read from files where different parts of the
+// table share the same data.
+func (info *Info) canEncode() (ok bool) {
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+	scriptList := info.ScriptList.encode()
+	featureList := info.FeatureList.encode()
+	if 10+len(scriptList)+len(featureList) <= math.MaxUint16 {
+		// The lookup list can be written last.
+		return true
+	}
+	_ = info.Encode()
+	return true
+}
+
+type gtabList struct {
+	offset *int
+	data   []byte
+}
+
 // Encode returns the binary representation of a "GSUB" or "GPOS" table.
+// The function panics, if there is too much data for the table.
 func (info *Info) Encode() []byte {
 	scriptList := info.ScriptList.encode()
 	featureList := info.FeatureList.encode()
 	lookupList := info.LookupList.encode()
 
+	if len(info.ScriptList) > 0 || featureList != nil || lookupList != nil {
+		// If one of the lists is present, all three lists must be present.
+		for _, list := range []*[]byte{&scriptList, &featureList, &lookupList} {
+			if *list == nil {
+				*list = []byte{0, 0}
+			}
+		}
+	}
+
+	var scriptListOffset, featureListOffset, lookupListOffset int
 	total := 10
-	var scriptListOffset int
-	if scriptList != nil {
-		scriptListOffset = total
-		total += len(scriptList)
-	}
-	var featureListOffset int
-	if featureList != nil {
-		featureListOffset = total
-		total += len(featureList)
-	}
-	var lookupListOffset int
-	if lookupList != nil {
-		lookupListOffset = total
-		total += len(lookupList)
+	place := func(order []gtabList) bool {
+		total = 10
+		ok := true
+		for _, l := range order {
+			if l.data == nil {
+				continue
+			}
+			ok = ok && total <= math.MaxUint16
+			*l.offset = total
+			total += len(l.data)
+		}
+		return ok
+	}
+	order := []gtabList{
+		{&scriptListOffset, scriptList},
+		{&featureListOffset, featureList},
+		{&lookupListOffset, lookupList},
+	}
+	if !place(order) {
+		// write the largest list last
+		sort.SliceStable(order, func(i, j int) bool {
+			return len(order[i].data) < len(order[j].data)
+		})
+		if !place(order) {
+			panic("gtab: too much data for 16-bit offsets")
+		}
 	}
 
 	buf := make([]byte, total)
diff --git a/opentype/gtab/limits.go b/opentype/gtab/limits.go
new file mode 100644
index 0000000..a4c2d7e
--- /dev/null
+++ b/opentype/gtab/limits.go
@@ -0,0 +1,60 @@
+// seehuhn.de/go/sfnt - a library for reading and writing font files
+// Copyright (C) 2023  Jochen Voss <voss@seehuhn.de>
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+package gtab
+
+import (
+	"math"
+
+	"seehuhn.de/go/sfnt/parser"
+)
+
+// checkUint16 panics if any of the given offsets or counts cannot be stored
+// in a 16-bit field.
+func checkUint16(xx ...int) {
+	for _, x := range xx {
+		if x < 0 || x > math.MaxUint16 {
+			panic("gtab: too much data for 16-bit offsets")
+		}
+	}
+}
+
+// toUint16 converts x to a 16-bit value.  It panics, if x does not fit.
+func toUint16(x int) uint16 {
+	checkUint16(x)
+	return uint16(x)
+}
+
+// canEncode returns true if the subtable can be represented in a font file.
+// This may be false for subtables read from files where different parts of
+// the subtable share the same data.
+func canEncode(l Subtable) (ok bool) {
+	if l.encodeLen() <= math.MaxUint16 {
+		return true
+	}
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+	_ = l.encode()
+	return true
+}
+
+var errSubtableTooLarge = &parser.InvalidFontError{
+	SubSystem: "sfnt/opentype/gtab",
+	Reason:    "too much data in lookup subtable",
+}
diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index bbcbfe0..0addd51 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -166,6 +166,12 @@ type Subtable interface {
 // Different functions are required for "GSUB" and "GPOS" tables.
 type subtableReader func(*parser.Parser, int64, *LookupMetaInfo) (Subtable, error)
 
+// maxLookupItems is the maximal number of lookups and subtables in a lookup
+// list.  This limit ensures that we can always store the lookup data (using
+// extension subtables if necessary), without exceeding the maximum offset size
+// in the lookup list table.
+const maxLookupItems = 6000
+
 func readLookupList(p *parser.Parser, pos int64, sr subtableReader) (LookupList, error) {
 	err := p.SeekPos(pos)
 	if err != nil {
@@ -198,10 +204,7 @@ func readLookupList(p *parser.Parser, pos int64, sr subtableReader) (LookupList,
 		subTableCount := uint16(buf[4])<<8 | uint16(buf[5])
 		numLookups++
 		numSubTables += int(subTableCount)
-		if numLookups+numSubTables > 6000 {
-			// The condition ensures that we can always store the lookup
-			// data (using extension subtables if necessary), without
-			// exceeding the maximum offset size in the lookup list table.
+		if numLookups+numSubTables > maxLookupItems {
 			return nil, &parser.InvalidFontError{
 				SubSystem: "sfnt/opentype/gtab",
 				Reason:    "too many lookup (sub-)tables",
@@ -314,16 +317,29 @@ findTypeLoop:
 			case *Gsub1_1, *Gsub1_2, *Gsub2_1, *Gsub3_1, *Gsub4_1, *Gsub8_1:
 				extLookupType = gsubExtensionLookupType
 				break findTypeLoop
-			case *Gpos1_1, *Gpos1_2, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
+			case *Gpos1_1, *Gpos1_2, Gpos2_1, *Gpos2_1, *Gpos2_2, *Gpos3_1, *Gpos4_1, *Gpos5_1, *Gpos6_1:
 				extLookupType = gposExtensionLookupType
 				break findTypeLoop
+			default:
+				// Contextual subtables use different lookup types in "GSUB"
+				// and "GPOS" tables.
+				switch l.Meta.LookupType {
+				case 5, 6:
+					extLookupType = gsubExtensionLookupType
+				case 7, 8:
+					extLookupType = gposExtensionLookupType
+				}
 			}
 		}
 	}
 
 	lookupCount := len(ll)
-	if lookupCount >= 1<<14 {
-		panic("too many lookup tables")
+	numItems := lookupCount
+	for _, l := range ll {
+		numItems += len(l.Subtables)
+	}
+	if numItems > maxLookupItems {
+		panic("too many lookup (sub-)tables")
 	}
 
 	// Make a list of all chunks which need to be written.
@@ -333,18 +349,12 @@ findTypeLoop:
 		size: 2 + 2*uint32(lookupCount),
 	})
 	for i, l := range ll {
-		lookupHeaderLen := 6 + 2*len(l.Subtables)
-		if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
-			lookupHeaderLen += 2
-		}
+		lookupHeaderLen := l.headerLen()
 		tCode := chunkCode(i) << 14
 		chunks = append(chunks, layoutChunk{
 			code: chunkTable | tCode,
 			size: uint32(lookupHeaderLen),
 		})
-		if len(l.Subtables) >= 1<<14 {
-			panic("too many subtables")
-		}
 		for j, subtable := range l.Subtables {
 			sCode := chunkCode(j)
 			chunks = append(chunks, layoutChunk{
@@ -356,12 +366,15 @@ findTypeLoop:
 
 	// If needed, reorder the chunks or introduce extension records.
 	isTooLarge := false
-	var total uint32
+	var total, lookupPos uint32
 	for i := range chunks {
 		code := chunks[i].code
-		if code&chunkTypeMask == chunkTable && total > 0xFFFF {
-			isTooLarge = true
-			break
+		switch code & chunkTypeMask {
+		case chunkTable:
+			lookupPos = total
+			isTooLarge = isTooLarge || total > 0xFFFF
+		case chunkSubtable:
+			isTooLarge = isTooLarge || total-lookupPos > 0xFFFF
 		}
 		total += chunks[i].size
 	}
@@ -388,6 +401,7 @@ findTypeLoop:
 			for i := range ll {
 				tCode := chunkCode(i) << 14
 				lookupOffset := chunkPos[chunkTable|tCode]
+				checkUint16(int(lookupOffset))
 				buf = append(buf, byte(lookupOffset>>8), byte(lookupOffset))
 			}
 		case chunkTable:
@@ -413,6 +427,7 @@ findTypeLoop:
 					subtablePos = chunkPos[chunkSubtable|tCode|sCode]
 				}
 				subtableOffset := subtablePos - base
+				checkUint16(int(subtableOffset))
 				buf = append(buf, byte(subtableOffset>>8), byte(subtableOffset))
 			}
 			if li.Meta.LookupFlags&UseMarkFilteringSet != 0 {
@@ -446,6 +461,28 @@ type layoutChunk struct {
 	size uint32
 }
 
+// headerLen returns the size of the lookup table without the subtables.
+func (l *LookupTable) headerLen() int {
+	res := 6 + 2*len(l.Subtables)
+	if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
+		res += 2
+	}
+	return res
+}
+
+// needsExtension returns true, if the subtables cannot directly follow the
+// lookup table, because the subtable offsets would exceed 16 bits.
+func (l *LookupTable) needsExtension() bool {
+	pos := l.headerLen()
+	for _, subtable := range l.Subtables {
+		if pos > 0xFFFF {
+			return true
+		}
+		pos += subtable.encodeLen()
+	}
+	return false
+}
+
 func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 	total := uint32(0)
 	for i := range chunks {
@@ -471,29 +508,41 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 
 	// Move the largest table to the end and introduce extension subtables
 	// as needed.
-	biggestLookup := lookups[len(lookups)-1]
-	lastPos := total - lookupSize[biggestLookup]
-	idx := len(lookups) - 2
+	lastPos := total
 	replace := make(map[chunkCode]bool)
 	extra := 0
-	for lastPos > 0xFFFF && idx >= 0 {
-		tCode := lookups[idx]
-
+	introduceExtension := func(tCode chunkCode) {
 		oldSize := lookupSize[tCode]
 		l := ll[tCode>>14]
-		lookupHeaderLen := 6 + 2*len(l.Subtables)
-		if l.Meta.LookupFlags&UseMarkFilteringSet != 0 {
-			lookupHeaderLen += 2
-		}
-		newSize := uint32(lookupHeaderLen) + 8*uint32(len(l.Subtables))
+		newSize := uint32(l.headerLen()) + 8*uint32(len(l.Subtables))
 
 		if newSize < oldSize {
 			replace[tCode] = true
 			extra += len(l.Subtables)
 			lastPos -= oldSize - newSize
 		}
+	}
+
+	// Lookups where the offsets of the subtables don't fit into 16 bits always
+	// need extension records.
+	candidates := lookups[:0]
+	for _, tCode := range lookups {
+		if ll[tCode>>14].needsExtension() {
+			introduceExtension(tCode)
+		} else {
+			candidates = append(candidates, tCode)
+		}
+	}
 
-		idx--
+	biggestLookup := chunkHeader // no lookup
+	if len(candidates) > 0 {
+		idx := len(candidates) - 1
+		biggestLookup = chunkTable | candidates[idx]
+		lastPos -= lookupSize[candidates[idx]]
+		for lastPos > 0xFFFF && idx > 0 {
+			idx--
+			introduceExtension(candidates[idx])
+		}
 	}
 	if lastPos > 0xFFFF {
 		panic("too much data for lookup list table")
@@ -508,7 +557,7 @@ func (ll LookupList) tryReorder(chunks []layoutChunk) []layoutChunk {
 		switch {
 		case tp == chunkHeader:
 			res = append(res, chunk)
-		case tCode == biggestLookup:
+		case chunkTable|tCode == biggestLookup:
 			moved = append(moved, chunk)
 		case replace[tCode]:
 			sCode := code & chunkSubtableMask
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 8a6ab08..b0c1abd 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -212,13 +212,14 @@ func (l *SeqContext1) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		seqRuleSetOffsets[i] = uint16(total)
+		seqRuleSetOffsets[i] = toUint16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
 		}
 	}
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Cov.EncodeLen()
 
 	buf := make([]byte, 0, total)
@@ -235,11 +236,13 @@ func (l *SeqContext1) encode() []byte {
 			continue
 		}
 		seqRuleCount := len(rules)
+		checkUint16(seqRuleCount)
 		buf = append(buf,
 			byte(seqRuleCount>>8), byte(seqRuleCount),
 		)
 		pos := 2 + 2*seqRuleCount
 		for _, rule := range rules {
+			checkUint16(pos)
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -248,6 +251,7 @@ func (l *SeqContext1) encode() []byte {
 		for _, rule := range rules {
 			glyphCount := len(rule.Input) + 1
 			seqLookupCount := len(rule.Actions)
+			checkUint16(glyphCount, seqLookupCount)
 			buf = append(buf,
 				byte(glyphCount>>8), byte(glyphCount),
 				byte(seqLookupCount>>8), byte(seqLookupCount),
@@ -456,7 +460,7 @@ func (l *SeqContext2) encode() []byte {
 		if rules == nil {
 			continue
 		}
-		seqRuleSetOffsets[i] = uint16(total)
+		seqRuleSetOffsets[i] = toUint16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 4 + 2*len(rule.Input) + 4*len(rule.Actions)
@@ -465,12 +469,9 @@ func (l *SeqContext2) encode() []byte {
 	coverageOffset := total
 	total += l.Cov.EncodeLen()
 	classDefOffset := total
+	checkUint16(coverageOffset, classDefOffset)
 	total += l.Input.AppendLen()
 
-	if classDefOffset > 0xFFFF {
-		panic("classDefOffset too large")
-	}
-
 	buf := make([]byte, 0, total)
 	buf = append(buf,
 		0, 2, // format
@@ -486,11 +487,13 @@ func (l *SeqContext2) encode() []byte {
 			continue
 		}
 		seqRuleCount := len(rules)
+		checkUint16(seqRuleCount)
 		buf = append(buf,
 			byte(seqRuleCount>>8), byte(seqRuleCount),
 		)
 		pos := 2 + 2*seqRuleCount
 		for _, rule := range rules {
+			checkUint16(pos)
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -499,6 +502,7 @@ func (l *SeqContext2) encode() []byte {
 		for _, rule := range rules {
 			glyphCount := len(rule.Input) + 1
 			seqLookupCount := len(rule.Actions)
+			checkUint16(glyphCount, seqLookupCount)
 			buf = append(buf,
 				byte(glyphCount>>8), byte(glyphCount),
 				byte(seqLookupCount>>8), byte(seqLookupCount),
@@ -623,9 +627,10 @@ func (l *SeqContext3) encode() []byte {
 	seqLookupCount := len(l.Actions)
 
 	total := 6 + 2*len(l.Input) + 4*len(l.Actions)
+	checkUint16(glyphCount, seqLookupCount)
 	coverageOffsets := make([]uint16, glyphCount)
 	for i, cov := range l.Input {
-		coverageOffsets[i] = uint16(total)
+		coverageOffsets[i] = toUint16(total)
 		total += cov.ToTable().EncodeLen()
 	}
 
@@ -877,13 +882,14 @@ func (l *ChainedSeqContext1) encode() []byte {
 	chainedSeqRuleSetCount := len(l.Rules)
 	total := 6 + 2*len(l.Rules)
 	coverageOffset := total
+	checkUint16(coverageOffset)
 	total += l.Cov.EncodeLen()
 	chainedSeqRuleSetOffsets := make([]uint16, chainedSeqRuleSetCount)
 	for i, rules := range l.Rules {
 		if rules == nil {
 			continue
 		}
-		chainedSeqRuleSetOffsets[i] = uint16(total)
+		chainedSeqRuleSetOffsets[i] = toUint16(total)
 		total += 2 + 2*len(rules)
 		for _, rule := range rules {
 			total += 2 + 2*len(rule.Backtrack)
@@ -910,12 +916,14 @@ func (l *ChainedSeqContext1) encode() []byte {
 			continue
 		}
 		chainedSeqRuleCount := len(rules)
+		checkUint16(chainedSeqRuleCount)
 		buf = append(buf,
 			byte(chainedSeqRuleCount>>8), byte(chainedSeqRuleCount),
 		)
 
 		pos := 2 + 2*chainedSeqRuleCount
 		for _, rule := range rules {
+			checkUint16(pos)
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -926,6 +934,7 @@ func (l *ChainedSeqContext1) encode() []byte {
 		}
 		for _, rule := range rules {
 			backtrackGlyphCount := len(rule.Backtrack)
+			checkUint16(backtrackGlyphCount, len(rule.Input)+1, len(rule.Lookahead), len(rule.Actions))
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
@@ -1237,16 +1246,14 @@ func (l *ChainedSeqContext2) encode() []byte {
 	inputOffset := total
 	total += l.Input.AppendLen()
 	lookaheadOffset := total
+	checkUint16(backtrackOffset, inputOffset, lookaheadOffset)
 	total += l.Lookahead.AppendLen()
 	chainedSeqRuleSetOffsets := make([]uint16, chainedSeqRuleSetCount)
 	for i, rr := range l.Rules {
 		if rr == nil {
 			continue
 		}
-		if total > 0xFFFF {
-			panic("ChainedSeqContext2 too large")
-		}
-		chainedSeqRuleSetOffsets[i] = uint16(total)
+		chainedSeqRuleSetOffsets[i] = toUint16(total)
 		total += 2 + 2*len(rr)
 		for _, rule := range rr {
 			total += 2 + 2*len(rule.Backtrack)
@@ -1279,15 +1286,14 @@ func (l *ChainedSeqContext2) encode() []byte {
 			continue
 		}
 		chainedSeqRuleCount := len(rr)
+		checkUint16(chainedSeqRuleCount)
 		buf = append(buf,
 			byte(chainedSeqRuleCount>>8), byte(chainedSeqRuleCount),
 		)
 
 		pos := 2 + 2*chainedSeqRuleCount
 		for _, rule := range rr {
-			if pos > 0xFFFF {
-				panic("ChainedSeqContext2 too large")
-			}
+			checkUint16(pos)
 			buf = append(buf,
 				byte(pos>>8), byte(pos),
 			)
@@ -1298,6 +1304,7 @@ func (l *ChainedSeqContext2) encode() []byte {
 		}
 		for _, rule := range rr {
 			backtrackGlyphCount := len(rule.Backtrack)
+			checkUint16(backtrackGlyphCount, len(rule.Input)+1, len(rule.Lookahead), len(rule.Actions))
 			buf = append(buf,
 				byte(backtrackGlyphCount>>8), byte(backtrackGlyphCount),
 			)
@@ -1496,21 +1503,22 @@ func (l *ChainedSeqContext3) encode() []byte {
 	total += 2 * len(l.Input)
 	total += 2 * len(l.Lookahead)
 	total += 4 * len(l.Actions)
+	checkUint16(backtrackGlyphCount, inputGlyphCount, lookaheadGlyphCount, seqLookupCount)
 	backtrackCoverageOffsets := make([]uint16, backtrackGlyphCount)
 	for i, set := range l.Backtrack {
-		backtrackCoverageOffsets[i] = uint16(total)
+		backtrackCoverageOffsets[i] = toUint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	inputCoverageOffsets := make([]uint16, inputGlyphCount)
 	for i, set := range l.Input {
-		inputCoverageOffsets[i] = uint16(total)
+		inputCoverageOffsets[i] = toUint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
 	lookaheadCoverageOffsets := make([]uint16, lookaheadGlyphCount)
 	for i, set := range l.Lookahead {
-		lookaheadCoverageOffsets[i] = uint16(total)
+		lookaheadCoverageOffsets[i] = toUint16(total)
 		cov := set.ToTable()
 		total += cov.EncodeLen()
 	}
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index 456d1fa..f3139d9 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -232,7 +232,7 @@ func (info ScriptListInfo) encode() []byte {
 
 	totalSize := 2 + 6*len(scriptLangs) // scriptCount, scriptRecords
 	for _, sRec := range scriptList {
-		sRec.offset = uint16(totalSize)
+		sRec.offset = toUint16(totalSize)
 		langCount := 0
 		for _, tag := range scriptLangs[sRec.script] {
 			_, lang, _ := bcp47ToOtf(tag)
@@ -290,11 +290,11 @@ func (info ScriptListInfo) encode() []byte {
 		})
 		pos := 4 + 6*len(langSysRecords)
 		if defaultRecord != nil {
-			defaultRecord.offs = uint16(pos)
+			defaultRecord.offs = toUint16(pos)
 			pos += 6 + len(defaultRecord.langSys.Optional)*2
 		}
 		for _, lRec := range langSysRecords {
-			lRec.offs = uint16(pos)
+			lRec.offs = toUint16(pos)
 			pos += 6 + len(lRec.langSys.Optional)*2
 		}
 
-- 
2.43.0


From 2f3da7d81613985bd0a7b1ab7c7b8bed927cd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:00 +0000
Subject: [PATCH 21/76] fix: reject ligatures and chained rules with glyph
 count 0

---
 opentype/gtab/gsub.go   |  6 ++++++
 opentype/gtab/nested.go | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 2fd363a..57817f1 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -538,6 +538,12 @@ func readGsub4_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			if err != nil {
 				return nil, err
 			}
+			if componentCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid component count in GSUB 4.1",
+				}
+			}
 			componentGlyphIDs := make([]glyph.ID, componentCount-1)
 			for k := range componentGlyphIDs {
 				gid, err := p.ReadUint16()
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index b0c1abd..c0631a4 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -735,6 +735,12 @@ func readChainedSeqContext1(p *parser.Parser, subtablePos int64) (Subtable, erro
 			if err != nil {
 				return nil, err
 			}
+			if inputGlyphCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid glyph count in ChainedSeqContext1",
+				}
+			}
 			inputSequence := make([]glyph.ID, inputGlyphCount-1)
 			for k := range inputSequence {
 				val, err := p.ReadUint16()
@@ -1064,6 +1070,12 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 			if err != nil {
 				return nil, err
 			}
+			if inputGlyphCount == 0 {
+				return nil, &parser.InvalidFontError{
+					SubSystem: "sfnt/opentype/gtab",
+					Reason:    "invalid glyph count in ChainedSeqContext2",
+				}
+			}
 			inputSequence := make([]uint16, inputGlyphCount-1)
 			for k := range inputSequence {
 				inputSequence[k], err = p.ReadUint16()
-- 
2.43.0


From 356e5bbee070150ef939c4355f8ca3bcccd5de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:50 +0000
Subject: [PATCH 22/76] fix: refuse script lists and coverage tables which
 cannot be represented

---
 opentype/coverage/coverage.go |  5 +++--
 opentype/gtab/scriptlist.go   | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index d7672c0..1f1e7e9 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -154,8 +154,9 @@ func (table Table) encInfo() ([]glyph.ID, int, int) {
 	for gid, i := range table {
 		rev[i] = gid
 	}
-	for i := 1; i < len(rev); i++ {
-		if rev[i-1] >= rev[i] {
+	for i, gid := range rev {
+		idx, ok := table[gid]
+		if !ok || idx != i || i > 0 && rev[i-1] >= gid {
 			panic("invalid coverage table")
 		}
 	}
diff --git a/opentype/gtab/scriptlist.go b/opentype/gtab/scriptlist.go
index f3139d9..dc92e77 100644
--- a/opentype/gtab/scriptlist.go
+++ b/opentype/gtab/scriptlist.go
@@ -17,6 +17,7 @@
 package gtab
 
 import (
+	"fmt"
 	"sort"
 
 	"golang.org/x/text/language"
@@ -210,13 +211,25 @@ func (info ScriptListInfo) encode() []byte {
 		return nil
 	}
 
+	type scriptLang struct {
+		script otfScript
+		lang   otfLang
+	}
+	seen := make(map[scriptLang]language.Tag)
 	scriptLangs := map[otfScript][]language.Tag{}
 	for tag := range info {
-		script, _, err := bcp47ToOtf(tag)
+		script, lang, err := bcp47ToOtf(tag)
 		if err != nil {
-			// TODO(voss): what to do here?
-			continue
+			panic(err)
+		} else if len(script) != 4 {
+			panic(fmt.Sprintf("gtab: no OpenType script for language tag %q", tag))
+		}
+		key := scriptLang{script, lang}
+		if other, ok := seen[key]; ok {
+			panic(fmt.Sprintf("gtab: language tags %q and %q have the same OpenType representation",
+				other, tag))
 		}
+		seen[key] = tag
 		scriptLangs[script] = append(scriptLangs[script], tag)
 	}
 
@@ -240,6 +253,7 @@ func (info ScriptListInfo) encode() []byte {
 				langCount++
 			}
 			langSys := info[tag]
+			checkUint16(len(langSys.Optional))
 			// lookupOrderOffset, requiredFeatureIndex, featureIndexCount, featureIndices:
 			totalSize += 6 + len(langSys.Optional)*2
 		}
-- 
2.43.0


From 2054aee84cdaaec6a5090e1277d91492d8658f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 23/76] fix: empty GSUB/GPOS lists and rule sets for unused
 classes must survive encoding

---
 opentype/gtab/gtab.go   | 4 +++-
 opentype/gtab/nested.go | 9 ---------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index 5e4ccf7..968ef24 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -201,13 +201,15 @@ func (info *Info) Encode() []byte {
 	featureList := info.FeatureList.encode()
 	lookupList := info.LookupList.encode()
 
-	if len(info.ScriptList) > 0 || featureList != nil || lookupList != nil {
+	if len(info.ScriptList) > 0 || len(info.FeatureList) > 0 || len(info.LookupList) > 0 {
 		// If one of the lists is present, all three lists must be present.
 		for _, list := range []*[]byte{&scriptList, &featureList, &lookupList} {
 			if *list == nil {
 				*list = []byte{0, 0}
 			}
 		}
+	} else {
+		scriptList, featureList, lookupList = nil, nil, nil
 	}
 
 	var scriptListOffset, featureListOffset, lookupListOffset int
diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index c0631a4..7080bed 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -309,10 +309,6 @@ func readSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		return nil, err
 	}
 
-	numClasses := classDef.NumClasses()
-	if len(classSeqRuleSetOffsets) > numClasses {
-		classSeqRuleSetOffsets = classSeqRuleSetOffsets[:numClasses]
-	}
 	seqRuleSetCount := len(classSeqRuleSetOffsets)
 
 	res := &SeqContext2{
@@ -1033,11 +1029,6 @@ func readChainedSeqContext2(p *parser.Parser, subtablePos int64) (Subtable, erro
 		return nil, err
 	}
 
-	numClasses := inputClassDef.NumClasses()
-	if numClasses < len(chainedClassSeqRuleSetOffsets) {
-		chainedClassSeqRuleSetOffsets = chainedClassSeqRuleSetOffsets[:numClasses]
-	}
-
 	rules := make([][]*ChainedClassSeqRule, len(chainedClassSeqRuleSetOffsets))
 	for i, chainedClassSeqRuleSetOffset := range chainedClassSeqRuleSetOffsets {
 		if chainedClassSeqRuleSetOffset == 0 {
-- 
2.43.0


From f3c48c083697121a74726292e2e712c6e48cc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 24/76] fix: sfnt files with skipped tables, short head tables
 or more than 280 tables

---
 header/tables.go | 11 +++++------
 header/write.go  | 35 ++++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/header/tables.go b/header/tables.go
index 8ae0c9e..2a97679 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -72,8 +72,7 @@ func Read(r io.ReaderAt) (*Info, error) {
 			Feature:   fmt.Sprintf("scaler type 0x%08x", scalerType),
 		}
 	}
-	if numTables > 280 {
-		// the largest value observed amongst the fonts on my laptop is 28
+	if numTables > maxTables {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/header",
 			Reason:    "too many tables",
@@ -85,8 +84,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 		Toc:        make(map[string]Record, numTables),
 	}
 	type alloc struct {
-		Start uint32
-		End   uint32
+		Start uint64
+		End   uint64
 	}
 	var coverage []alloc
 	for i := 0; i < numTables; i++ {
@@ -117,8 +116,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 			Length: length,
 		}
 		coverage = append(coverage, alloc{
-			Start: offset,
-			End:   offset + length,
+			Start: uint64(offset),
+			End:   uint64(offset) + uint64(length),
 		})
 	}
 	if len(h.Toc) == 0 {
diff --git a/header/write.go b/header/write.go
index e46b5e3..751a95b 100644
--- a/header/write.go
+++ b/header/write.go
@@ -19,19 +19,24 @@ package header
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 	"math/bits"
 	"sort"
 )
 
+// maxTables is the maximal number of tables in an sfnt file.
+// This is the largest number where the search range in the file header
+// fits into 16 bits.
+const maxTables = 4095
+
 // Write writes an sfnt file containing the given tables.
 // Tables where the data is nil are not written, use a zero-length slice
 // to write a table with no data.
 // This changes the checksum in the "head" table in place.
 func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, error) {
-	numTables := len(tables)
-
-	tableNames := make([]string, 0, numTables)
+	tableNames := make([]string, 0, len(tables))
 	for name, data := range tables {
 		if data != nil && len(name) == 4 {
 			tableNames = append(tableNames, name)
@@ -48,6 +53,13 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 		return tableNames[i] < tableNames[j]
 	})
 
+	numTables := len(tableNames)
+	if numTables == 0 {
+		return 0, errors.New("sfnt/header: no tables to write")
+	} else if numTables > maxTables {
+		return 0, errors.New("sfnt/header: too many tables")
+	}
+
 	// prepare the header
 	entrySelector := bits.Len(uint(numTables)) - 1
 	header := &offsets{
@@ -59,22 +71,27 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	}
 
 	// temporarily clear the checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	headData := tables["head"]
+	hasChecksum := len(headData) >= 12
+	if hasChecksum {
 		clearChecksum(headData)
 	}
 
 	var totalSum uint32
-	offset := uint32(12 + 16*numTables)
+	offset := uint64(12 + 16*numTables)
 	records := make([]rawRecord, numTables)
 	for i, name := range tableNames {
 		body := tables[name]
-		length := uint32(len(body))
+		length := uint64(len(body))
+		if offset+length > math.MaxUint32 {
+			return 0, errors.New("sfnt/header: too much data for 32-bit offsets")
+		}
 		checksum := checksum(body)
 
 		records[i].Tag = tag{name[0], name[1], name[2], name[3]}
 		records[i].CheckSum = checksum
-		records[i].Offset = offset
-		records[i].Length = length
+		records[i].Offset = uint32(offset)
+		records[i].Length = uint32(length)
 
 		totalSum += checksum
 		offset += 4 * ((length + 3) / 4)
@@ -90,7 +107,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	totalSum += checksum(headerBytes)
 
 	// set the final checksum in the "head" table
-	if headData, ok := tables["head"]; ok {
+	if hasChecksum {
 		patchChecksum(headData, totalSum)
 	}
 
-- 
2.43.0


From e53b5ba81b7b7aa1ba1ce4c3dd924c374bd2027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:27 +0000
Subject: [PATCH 25/76] fix: font versions must survive a read/write cycle

---
 head/head.go | 14 ++++++++++----
 read.go      |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/head/head.go b/head/head.go
index de82167..1bc140b 100644
--- a/head/head.go
+++ b/head/head.go
@@ -216,21 +216,27 @@ func VersionFromString(s string) (Version, error) {
 	}
 
 	ver, err := strconv.ParseFloat(m[1], 64)
-	if err != nil {
+	if err != nil || ver*65536+0.5 >= 1<<32 {
 		return 0, errInvalidVersion
 	}
 	return Version(ver*65536 + 0.5), nil
 }
 
+// thousandths returns the version number, rounded to three decimal places.
+// The result is never larger than the largest number which can be
+// represented.
+func (v Version) thousandths() float64 {
+	return min(math.Round(float64(v)/65536*1000), 65535999) / 1000
+}
+
 func (v Version) String() string {
-	return fmt.Sprintf("%.03f", float64(v)/65536)
+	return fmt.Sprintf("%.03f", v.thousandths())
 }
 
 // Round removes all information from v which is not visible in the string
 // representation.
 func (v Version) Round() Version {
-	x := math.Round(float64(v)/65536*1000) / 1000
-	return Version(math.Round(x * 65536))
+	return Version(math.Round(v.thousandths() * 65536))
 }
 
 var versionPat = regexp.MustCompile(`^(?:Version )?(\d+\.?\d+)`)
diff --git a/read.go b/read.go
index eff0cae..1fd2e3d 100644
--- a/read.go
+++ b/read.go
@@ -530,7 +530,7 @@ func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
 
 func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
@@ -541,5 +541,5 @@ func getCFFVersion(fontInfo *type1.FontInfo) (head.Version, bool) {
 	if err != nil {
 		return 0, false
 	}
-	return v, true
+	return v.Round(), true
 }
-- 
2.43.0


From d9c6cbdebb1f239bb67dd57d612d7809caacdf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:35 +0000
Subject: [PATCH 26/76] fix: reading fonts with only blank glyphs, or without
 hmtx table

---
 read.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 1fd2e3d..6cce416 100644
--- a/read.go
+++ b/read.go
@@ -74,7 +74,9 @@ func Read(r io.Reader) (*Font, error) {
 		return nil, fmt.Errorf("sfnt header: %w", err)
 	}
 
-	if !(dir.Has("glyf", "loca") || dir.Has("CFF ")) {
+	// The "glyf" table may be empty, if all glyphs are blank.
+	_, hasGlyf := dir.Toc["glyf"]
+	if !(hasGlyf && dir.Has("loca") || dir.Has("CFF ")) {
 		if dir.Has("CFF2") {
 			return nil, &parser.NotSupportedError{
 				SubSystem: "sfnt",
@@ -266,7 +268,7 @@ func Read(r io.Reader) (*Font, error) {
 			return nil, errors.New("sfnt: ttf glyph count mismatch")
 		}
 
-		var widths []funit.Int16
+		widths := make([]funit.Int16, len(ttGlyphs))
 		if hmtxInfo != nil && len(hmtxInfo.Widths) > 0 {
 			widths = hmtxInfo.Widths
 		}
-- 
2.43.0


From 197c0b3693b9040646d461046fc207710f79a5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:35 +0000
Subject: [PATCH 27/76] fix: reading sfnt files must not lose fractional CFF
 widths and underline values

---
 read.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/read.go b/read.go
index 6cce416..6fa3682 100644
--- a/read.go
+++ b/read.go
@@ -223,7 +223,12 @@ func Read(r io.Reader) (*Font, error) {
 			return nil, errors.New("sfnt: cff glyph count mismatch")
 		} else if hmtxInfo != nil && len(hmtxInfo.Widths) > 0 {
 			for i, w := range hmtxInfo.Widths {
-				cffInfo.Glyphs[i].Width = float64(w)
+				g := cffInfo.Glyphs[i]
+				// The "hmtx" table only has integer widths.  Keep the value
+				// from the "CFF " table, if the two are compatible.
+				if roundToInt16(g.Width) != w {
+					g.Width = float64(w)
+				}
 			}
 		}
 	case header.ScalerTypeTrueType, header.ScalerTypeApple:
@@ -393,9 +398,17 @@ func Read(r io.Reader) (*Font, error) {
 	if postInfo != nil {
 		info.UnderlinePosition = funit.Float64(postInfo.UnderlinePosition)
 		info.UnderlineThickness = funit.Float64(postInfo.UnderlineThickness)
-	} else if fontInfo != nil {
-		info.UnderlinePosition = fontInfo.UnderlinePosition
-		info.UnderlineThickness = fontInfo.UnderlineThickness
+	}
+	if fontInfo != nil {
+		// The "post" table only has integer values.  Use the values from the
+		// "CFF " table, if the two are compatible.
+		pos, thickness := fontInfo.UnderlinePosition, fontInfo.UnderlineThickness
+		if postInfo == nil || roundToInt16(float64(pos)) == postInfo.UnderlinePosition {
+			info.UnderlinePosition = pos
+		}
+		if postInfo == nil || roundToInt16(float64(thickness)) == postInfo.UnderlineThickness {
+			info.UnderlineThickness = thickness
+		}
 	}
 
 	// Currently we set IsItalic if there is any evidence of the font being
-- 
2.43.0


From a930754654ee4b2fffbc7369b5447b907bb7a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:35 +0000
Subject: [PATCH 28/76] fix: bold flag and large kern tables must survive a
 read/write cycle

---
 read.go | 72 +++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/read.go b/read.go
index 6fa3682..8fa106d 100644
--- a/read.go
+++ b/read.go
@@ -23,8 +23,10 @@ import (
 	"io"
 	"math"
 	"os"
+	"slices"
 	"strings"
 
+	"golang.org/x/exp/maps"
 	"golang.org/x/text/language"
 
 	"seehuhn.de/go/postscript/funit"
@@ -33,6 +35,7 @@ import (
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/cmap"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/head"
 	"seehuhn.de/go/sfnt/header"
 	"seehuhn.de/go/sfnt/hmtx"
@@ -435,10 +438,11 @@ func Read(r io.Reader) (*Font, error) {
 		info.IsBold = headInfo.IsBold
 	}
 	// TODO(voss): we could also check info.Weight == font.WeightBold
-	if nameTable != nil &&
-		strings.Contains(nameTable.Subfamily, "Bold") &&
-		!strings.Contains(nameTable.Subfamily, "Semi Bold") &&
-		!strings.Contains(nameTable.Subfamily, "Extra Bold") {
+	if nameTable != nil && isBoldName(nameTable.Subfamily) {
+		info.IsBold = true
+	}
+	// This subfamily name will be used when the font is written.
+	if isBoldName(info.Subfamily()) {
 		info.IsBold = true
 	}
 
@@ -512,15 +516,9 @@ func Read(r io.Reader) (*Font, error) {
 			return nil, fmt.Errorf("kern table: %w", err)
 		}
 
-		subtable := gtab.Gpos2_1{}
-		for pair, val := range kern {
-			subtable[pair] = &gtab.PairAdjust{
-				First: &gtab.GposValueRecord{XAdvance: val},
-			}
-		}
 		info.Gpos = &gtab.Info{
 			ScriptList: map[language.Tag]*gtab.Features{
-				language.MustParse("und-Zzzz"): {Required: 0, Optional: []gtab.FeatureIndex{}},
+				language.MustParse("und-Zzzz-x-dflt"): {Required: 0, Optional: []gtab.FeatureIndex{}},
 			},
 			FeatureList: []*gtab.Feature{
 				{Tag: "kern", Lookups: []gtab.LookupIndex{0}},
@@ -528,7 +526,7 @@ func Read(r io.Reader) (*Font, error) {
 			LookupList: []*gtab.LookupTable{
 				{
 					Meta:      &gtab.LookupMetaInfo{LookupType: 2},
-					Subtables: []gtab.Subtable{subtable},
+					Subtables: kernSubtables(kern),
 				},
 			},
 		}
@@ -537,6 +535,56 @@ func Read(r io.Reader) (*Font, error) {
 	return info, nil
 }
 
+// isBoldName returns true if the subfamily name indicates a bold font.
+func isBoldName(subfamily string) bool {
+	return strings.Contains(subfamily, "Bold") &&
+		!strings.Contains(subfamily, "Semi Bold") &&
+		!strings.Contains(subfamily, "Extra Bold")
+}
+
+// kernSubtables converts a "kern" table to GPOS lookup subtables.
+// Several subtables are used, if there are too many pairs for the 16-bit
+// offsets inside a single subtable.
+func kernSubtables(info kern.Info) []gtab.Subtable {
+	pairs := maps.Keys(info)
+	slices.SortFunc(pairs, func(a, b glyph.Pair) int {
+		if a.Left != b.Left {
+			return int(a.Left) - int(b.Left)
+		}
+		return int(a.Right) - int(b.Right)
+	})
+
+	const (
+		maxSize   = 0xF000
+		firstSize = 6 // offset, coverage table entry, pair set header
+		pairSize  = 4 // second glyph, horizontal advance
+	)
+
+	subtable := gtab.Gpos2_1{}
+	res := []gtab.Subtable{subtable}
+	size := 0
+	for len(pairs) > 0 {
+		// all pairs with the same first glyph must be in the same subtable
+		n := 1
+		for n < len(pairs) && pairs[n].Left == pairs[0].Left {
+			n++
+		}
+		if size > 0 && size+firstSize+n*pairSize > maxSize {
+			subtable = gtab.Gpos2_1{}
+			res = append(res, subtable)
+			size = 0
+		}
+		for _, pair := range pairs[:n] {
+			subtable[pair] = &gtab.PairAdjust{
+				First: &gtab.GposValueRecord{XAdvance: info[pair]},
+			}
+		}
+		size += firstSize + n*pairSize
+		pairs = pairs[n:]
+	}
+	return res
+}
+
 func getNameTableVersion(t *name.Table) (head.Version, bool) {
 	if t == nil {
 		return 0, false
-- 
2.43.0


From 1c257710bc420f465b0b2514094603d15aea4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 29/76] fix: report short writes as errors

---
 cff/write.go    |  5 ++++-
 header/write.go | 16 +++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/cff/write.go b/cff/write.go
index 56490a4..65fc7b8 100644
--- a/cff/write.go
+++ b/cff/write.go
@@ -233,7 +233,10 @@ func (f *Font) Write(w io.Writer) error {
 	}
 
 	for i := 0; i < numSections; i++ {
-		_, err = w.Write(blobs[i])
+		n, err := w.Write(blobs[i])
+		if err == nil && n < len(blobs[i]) {
+			err = io.ErrShortWrite
+		}
 		if err != nil {
 			return err
 		}
diff --git a/header/write.go b/header/write.go
index 751a95b..9a606fd 100644
--- a/header/write.go
+++ b/header/write.go
@@ -113,7 +113,7 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 
 	// write the tables
 	var totalSize int64
-	n, err := w.Write(headerBytes)
+	n, err := writeAll(w, headerBytes)
 	totalSize += int64(n)
 	if err != nil {
 		return totalSize, err
@@ -121,13 +121,13 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	var pad [3]byte
 	for _, name := range tableNames {
 		body := tables[name]
-		n, err := w.Write(body)
+		n, err := writeAll(w, body)
 		totalSize += int64(n)
 		if err != nil {
 			return totalSize, err
 		}
 		if k := n % 4; k != 0 {
-			l, err := w.Write(pad[:4-k])
+			l, err := writeAll(w, pad[:4-k])
 			totalSize += int64(l)
 			if err != nil {
 				return totalSize, err
@@ -137,6 +137,16 @@ func Write(w io.Writer, scalerType uint32, tables map[string][]byte) (int64, err
 	return totalSize, nil
 }
 
+// writeAll writes data to w.
+// Short writes are reported as errors, even if w does not do so.
+func writeAll(w io.Writer, data []byte) (int, error) {
+	n, err := w.Write(data)
+	if err == nil && n < len(data) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
+
 // clearChecksum zeros the checksum field of the head table.
 func clearChecksum(head []byte) {
 	binary.BigEndian.PutUint32(head[8:12], 0)
-- 
2.43.0


From bec08f94464672bbf799024b6de0289c4137ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 30/76] fix: nested actions must not leak into later matches

Actions with an invalid sequence index were not removed from the list of
remaining actions, and actions left over after reaching the limit for the
number of nested actions were applied to later, unrelated input.
---
 opentype/gtab/layout.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index 0b905bc..c5bb1b8 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -121,12 +121,12 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 
 		lookupIndex := ctx.stack[k].Actions[0].LookupListIndex
 		seqIdx := ctx.stack[k].Actions[0].SequenceIndex
+		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 		if int(seqIdx) >= len(ctx.stack[k].InputPos) {
 			continue
 		}
 		pos := ctx.stack[k].InputPos[seqIdx]
 		end := ctx.stack[k].EndPos
-		ctx.stack[k].Actions = ctx.stack[k].Actions[1:]
 
 		if int(lookupIndex) >= len(ctx.ll) {
 			continue
@@ -146,6 +146,14 @@ func (ctx *Context) applyAtRecursively(pos int) int {
 		}
 	}
 
+	// If the limit for the number of actions was reached, discard the
+	// remaining actions.
+	if len(ctx.stack) > 0 {
+		next = ctx.stack[0].EndPos
+		clear(ctx.stack)
+		ctx.stack = ctx.stack[:0]
+	}
+
 	return next
 }
 
-- 
2.43.0


From 8f13a07f668142034bcef50cd3fefd4f5b41e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 31/76] fix: end of parent match after merging trailing ignored
 glyphs

The end position was not adjusted for merged glyphs after the last glyph
of the input sequence of the parent match.
---
 opentype/gtab/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/layout.go b/opentype/gtab/layout.go
index c5bb1b8..c872831 100644
--- a/opentype/gtab/layout.go
+++ b/opentype/gtab/layout.go
@@ -266,6 +266,6 @@ func (ctx *Context) fixStackMerge(pos []int) {
 		}
 
 		action.InputPos = in
-		action.EndPos -= delta
+		action.EndPos -= len(pos) - 1
 	}
 }
-- 
2.43.0


From d2b3aa936f202b0e84474cda4634bfb8b21a0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 32/76] fix: do not panic for empty GSUB 2.1 replacement
 sequences

---
 opentype/gtab/gsub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 57817f1..8b6dadd 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -275,6 +275,10 @@ func (l *Gsub2_1) apply(ctx *Context, a, b int) int {
 	}
 
 	repl := l.Repl[idx]
+	if len(repl) == 0 {
+		return -1
+	}
+
 	seq[a].GID = repl[0]
 	k := len(repl)
 	if k > 1 {
-- 
2.43.0


From 96b7f68c3222787c9de397ae4950c610456db86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 33/76] fix: keep skipped and matched positions of ligatures
 apart

When a ligature candidate did not match, the position lists for the next
candidate shared the same memory.
---
 opentype/gtab/gsub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/gsub.go b/opentype/gtab/gsub.go
index 8b6dadd..9d85439 100644
--- a/opentype/gtab/gsub.go
+++ b/opentype/gtab/gsub.go
@@ -605,7 +605,7 @@ ligLoop:
 		lig := &ligSet[j]
 
 		matchPos = matchPos[:0]
-		skipPos = matchPos[:0]
+		skipPos = skipPos[:0]
 		text = text[:0]
 
 		matchPos = append(matchPos, a)
-- 
2.43.0


From 77f4b8cc15cbb579e2e6b897bda4ac2d8849b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 34/76] fix: do not panic for classes without rules in
 SeqContext2

---
 opentype/gtab/nested.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index 7080bed..d119c2f 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -392,6 +392,9 @@ func (l *SeqContext2) apply(ctx *Context, a, b int) int {
 		return -1
 	}
 	ruleIdx := l.Input[gid]
+	if int(ruleIdx) >= len(l.Rules) {
+		return -1
+	}
 	rules := l.Rules[ruleIdx]
 
 	matchPos := ctx.scratch
-- 
2.43.0


From ce086882481144346802731e726d319391a0a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 35/76] fix: input sequence and lookahead of ChainedSeqContext3

The first glyph was listed twice in the input sequence, so that all sequence
indices were off by one, and ignored glyphs between the input sequence and
the lookahead were not skipped when the input reached the end of the parent
match.
---
 opentype/gtab/nested.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/opentype/gtab/nested.go b/opentype/gtab/nested.go
index d119c2f..322b010 100644
--- a/opentype/gtab/nested.go
+++ b/opentype/gtab/nested.go
@@ -1436,34 +1436,43 @@ func (l *ChainedSeqContext3) apply(ctx *Context, a, b int) int {
 		}
 	}
 
+	if len(l.Input) == 0 || !l.Input[0][seq[a].GID] {
+		return -1
+	}
+
 	p = a
 	matchPos := append(ctx.scratch[:0], p)
-	glyphsNeeded = len(l.Input)
-	for _, cov := range l.Input {
-		if p+glyphsNeeded-1 >= b || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
-		matchPos = append(matchPos, p)
+	glyphsNeeded = len(l.Input) - 1
+	for _, cov := range l.Input[1:] {
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < b && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= b || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+		matchPos = append(matchPos, p)
 	}
 	next := p
 
 	glyphsNeeded = len(l.Lookahead)
 	for _, cov := range l.Lookahead {
-		if p+glyphsNeeded-1 >= len(seq) || !cov[seq[p].GID] {
-			ctx.scratch = matchPos // return the scratch space
-			return -1
-		}
 		glyphsNeeded--
 		p++
 		for p+glyphsNeeded < len(seq) && !keep.Keep(seq[p].GID) {
 			p++
 		}
+		if p+glyphsNeeded >= len(seq) || !cov[seq[p].GID] {
+			ctx.scratch = matchPos // return the scratch space
+			return -1
+		}
+	}
+
+	next++
+	for next < b && !keep.Keep(seq[next].GID) {
+		next++
 	}
 
 	ctx.scratch = nil // claim the scratch space as our own
-- 
2.43.0


From d9801efa38f6184df9364852e83d34319d434468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 36/76] fix: do not panic for invalid mark filtering set
 indices

---
 opentype/gtab/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/filter.go b/opentype/gtab/filter.go
index 6b7c5b9..841ad30 100644
--- a/opentype/gtab/filter.go
+++ b/opentype/gtab/filter.go
@@ -86,7 +86,7 @@ func (k *keepFunc) Keep(gid glyph.ID) bool {
 			// If a mark filtering set is specified, this supersedes any mark
 			// attachment type indication in the lookup flag.
 			set := k.Meta.MarkFilteringSet
-			if k.Gdef.MarkGlyphSets == nil || !k.Gdef.MarkGlyphSets[set][gid] {
+			if int(set) >= len(k.Gdef.MarkGlyphSets) || !k.Gdef.MarkGlyphSets[set][gid] {
 				return false
 			}
 		} else if m := flags & MarkAttachTypeMask; m != 0 {
-- 
2.43.0


From e618291e1e32d2d764ba5a12ac3c3ffafaa89236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:57 +0000
Subject: [PATCH 37/76] fix: do not panic for invalid mark classes in GPOS 4.1
 and 6.1

---
 opentype/gtab/gpos4.go | 6 +++++-
 opentype/gtab/gpos6.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 4143080..84349bb 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -147,7 +147,11 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
-	baseRecord := l.BaseArray[baseIdx][markRecord.Class]
+	row := l.BaseArray[baseIdx]
+	if int(markRecord.Class) >= len(row) {
+		return -1
+	}
+	baseRecord := row[markRecord.Class]
 	if baseRecord.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
 		return -1
diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index ab2800f..c69bb6f 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -145,7 +145,11 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	if p < 0 {
 		return -1
 	}
-	mark2Record := l.Mark2Array[mark2Idx][mark1Record.Class]
+	row := l.Mark2Array[mark2Idx]
+	if int(mark1Record.Class) >= len(row) {
+		return -1
+	}
+	mark2Record := row[mark1Record.Class]
 	if mark2Record.IsEmpty() {
 		// TODO(voss): verify that this is what others do, too.
 		return -1
-- 
2.43.0


From 6bd649946362560f2b62f410a0a9aa229fae2eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:57 +0000
Subject: [PATCH 38/76] fix: attach marks to the preceding mark in GPOS 6.1

The mark was attached to the closest earlier covered glyph, even if other
glyphs came in between, and the offset of the mark it attaches to was not
taken into account.
---
 opentype/gtab/gpos6.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/opentype/gtab/gpos6.go b/opentype/gtab/gpos6.go
index c69bb6f..0a351f8 100644
--- a/opentype/gtab/gpos6.go
+++ b/opentype/gtab/gpos6.go
@@ -130,21 +130,19 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	}
 	mark1Record := l.Mark1Array[mark1Idx]
 
-	if a == 0 {
-		return -1
-	}
+	// The lookup flags determine which glyphs are skipped when searching for
+	// the preceding mark.
 	p := a - 1
-	var mark2Idx int
-	for p >= 0 {
-		mark2Idx, ok = l.Mark2Cov[seq[p].GID]
-		if ok {
-			break
-		}
+	for p >= 0 && !ctx.keep.Keep(seq[p].GID) {
 		p--
 	}
 	if p < 0 {
 		return -1
 	}
+	mark2Idx, ok := l.Mark2Cov[seq[p].GID]
+	if !ok {
+		return -1
+	}
 	row := l.Mark2Array[mark2Idx]
 	if int(mark1Record.Class) >= len(row) {
 		return -1
@@ -160,8 +158,8 @@ func (l *Gpos6_1) apply(ctx *Context, a, b int) int {
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
-	seq[a].XOffset = dx
-	seq[a].YOffset = dy
+	seq[a].XOffset = seq[p].XOffset + dx
+	seq[a].YOffset = seq[p].YOffset + dy
 	return a + 1
 }
 
-- 
2.43.0


From f44bdc860347d09b3c42c270f4211df442f68891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:57 +0000
Subject: [PATCH 39/76] fix: attach marks to the preceding base in GPOS 4.1

The mark was attached to the closest earlier covered glyph, even if another
base glyph came in between, and the offset of the base glyph was not taken
into account.
---
 opentype/gtab/gpos4.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentype/gtab/gpos4.go b/opentype/gtab/gpos4.go
index 84349bb..330ecaa 100644
--- a/opentype/gtab/gpos4.go
+++ b/opentype/gtab/gpos4.go
@@ -132,9 +132,8 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	}
 	markRecord := l.MarkArray[markIdx]
 
-	if a == 0 {
-		return -1
-	}
+	// Search for the preceding base glyph, skipping over other marks.
+	hasClasses := ctx.gdef != nil && ctx.gdef.GlyphClass != nil
 	p := a - 1
 	var baseIdx int
 	for p >= 0 {
@@ -142,6 +141,9 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 		if ok {
 			break
 		}
+		if hasClasses && !ctx.gdef.IsMark(seq[p].GID) {
+			return -1
+		}
 		p--
 	}
 	if p < 0 {
@@ -162,8 +164,8 @@ func (l *Gpos4_1) apply(ctx *Context, a, b int) int {
 	for i := p; i < a; i++ {
 		dx -= seq[i].Advance
 	}
-	seq[a].XOffset += dx
-	seq[a].YOffset += dy
+	seq[a].XOffset = seq[p].XOffset + dx
+	seq[a].YOffset = seq[p].YOffset + dy
 	return a + 1
 }
 
-- 
2.43.0


From 3d827031e9b216aa59256105dc929739b6dff204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:33 +0000
Subject: [PATCH 40/76] fix: choose features independently of map iteration
 order

If no language matches, FindLookups now always uses the default script, if
present.
---
 opentype/gtab/lookup.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opentype/gtab/lookup.go b/opentype/gtab/lookup.go
index 0addd51..cedd0d7 100644
--- a/opentype/gtab/lookup.go
+++ b/opentype/gtab/lookup.go
@@ -18,6 +18,7 @@ package gtab
 
 import (
 	"sort"
+	"strings"
 
 	"golang.org/x/text/language"
 	"seehuhn.de/go/sfnt/parser"
@@ -629,8 +630,15 @@ func (info *Info) FindLookups(lang language.Tag, includeFeature map[string]bool)
 	for tag := range info.ScriptList {
 		tags = append(tags, tag)
 	}
-	// TODO(voss): make sure a sensible default comes first.
-	//     Maybe this could be based on the number of features supported?
+	// The first tag is used as the default, if no other tag matches.
+	sort.Slice(tags, func(i, j int) bool {
+		a, b := tags[i].String(), tags[j].String()
+		aDefault, bDefault := strings.HasPrefix(a, "und-Zzzz"), strings.HasPrefix(b, "und-Zzzz")
+		if aDefault != bDefault {
+			return aDefault
+		}
+		return a < b
+	})
 
 	matcher := language.NewMatcher(tags)
 	_, index, _ := matcher.Match(lang)
-- 
2.43.0


From b57c6379b1bee01bf78e4ffa763859ece1980914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:33 +0000
Subject: [PATCH 41/76] fix: do not panic in Layout for glyphs missing from the
 font

---
 layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layout.go b/layout.go
index 76483cc..84f4273 100644
--- a/layout.go
+++ b/layout.go
@@ -85,9 +85,10 @@ func (l *Layouter) Layout(s string) []glyph.Info {
 	}
 
 	font := l.font
+	numGlyphs := font.NumGlyphs()
 	for i := range seq {
 		gid := seq[i].GID
-		if !font.Gdef.IsMark(gid) {
+		if int(gid) < numGlyphs && !font.Gdef.IsMark(gid) {
 			seq[i].Advance = funit.Int16(font.GlyphWidth(gid)) // TODO(voss)
 		}
 	}
-- 
2.43.0


From cb453d8f4ab46c24d44295be2e0a19c3b86e1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 42/76] fix: kern tables with more than 10920 pairs

The length of a subtable is limited to 16 bits.
---
 kern/kern.go | 89 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/kern/kern.go b/kern/kern.go
index 7a474df..df6ab26 100644
--- a/kern/kern.go
+++ b/kern/kern.go
@@ -73,24 +73,35 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 		format := buf[4]
 		flags := buf[5]
 
-		if length < 6+8 {
+		var nPairs uint16
+		isFormat0 := subtableVersion == 0 && format == 0
+		if isFormat0 {
+			nPairs, err = p.ReadUint16()
+			if err != nil {
+				return nil, err
+			}
+		}
+
+		// Some fonts have subtables which are too long for the 16-bit length
+		// field.  In this case, only the low bits of the length are stored.
+		subtableLen := int64(length)
+		if fullLen := 6 + 8 + 6*int64(nPairs); isFormat0 && uint16(fullLen) == length {
+			subtableLen = fullLen
+		}
+		if subtableLen < 6+8 {
 			return nil, &parser.InvalidFontError{
 				SubSystem: "sfnt/kern",
 				Reason:    fmt.Sprintf("invalid kern subtable length %d", length),
 			}
 		}
-		pos += int64(length)
+		pos += subtableLen
 
-		if subtableVersion != 0 || format != 0 || flags&0b11110101 != 1 {
+		if !isFormat0 || flags&0b11110101 != 1 {
 			continue
 		}
 		isMinimum := flags&0b00000010 != 0
 		isOverride := flags&0b00001000 != 0
 
-		nPairs, err := p.ReadUint16()
-		if err != nil {
-			return nil, err
-		}
 		err = p.Discard(6) // skip searchRange, entrySelector and rangeShift
 		if err != nil {
 			return nil, err
@@ -119,41 +130,55 @@ func Read(r parser.ReadSeekSizer) (Info, error) {
 	return res, nil
 }
 
+// maxPairs is the maximum number of pairs in a subtable, so that the subtable
+// length fits into 16 bits.
+const maxPairs = (0xFFFF - 14) / 6
+
 // Encode converts the "kern" table to its binary representation.
+// If there are too many pairs for a single subtable, several subtables are
+// used.
 func (info Info) Encode() []byte {
-	nPairs := len(info)
+	pairs := make([]byte, 0, 6*len(info))
+	for pair, val := range info {
+		pairs = append(pairs,
+			byte(pair.Left>>8), byte(pair.Left),
+			byte(pair.Right>>8), byte(pair.Right),
+			byte(val>>8), byte(val),
+		)
+	}
+	sort.Sort(blocks(pairs))
+
+	numTables := max((len(info)+maxPairs-1)/maxPairs, 1)
 	headerLen := 4
 	subHeaderLen := 14
-	subTableLen := subHeaderLen + 6*nPairs
-	buf := make([]byte, 0, headerLen+subTableLen)
-
-	var entrySelector, searchRange, rangeShift int
-	if nPairs > 0 {
-		entrySelector = bits.Len(uint(nPairs)) - 1
-		searchRange = 6 * (1 << entrySelector)
-		rangeShift = 6 * (nPairs - 1<<entrySelector)
-	}
+	buf := make([]byte, 0, headerLen+numTables*subHeaderLen+len(pairs))
 	buf = append(buf,
 		0, 0, // version
-		0, 1, // numTables
-
-		0, 0, // subtable version
-		byte(subTableLen>>8), byte(subTableLen),
-		0, 1, // coverage
-
-		byte(nPairs>>8), byte(nPairs),
-		byte(searchRange>>8), byte(searchRange),
-		byte(entrySelector>>8), byte(entrySelector),
-		byte(rangeShift>>8), byte(rangeShift),
+		byte(numTables>>8), byte(numTables),
 	)
-	for pair, val := range info {
+	for range numTables {
+		nPairs := min(len(pairs)/6, maxPairs)
+		subTableLen := subHeaderLen + 6*nPairs
+
+		var entrySelector, searchRange, rangeShift int
+		if nPairs > 0 {
+			entrySelector = bits.Len(uint(nPairs)) - 1
+			searchRange = 6 * (1 << entrySelector)
+			rangeShift = 6 * (nPairs - 1<<entrySelector)
+		}
 		buf = append(buf,
-			byte(pair.Left>>8), byte(pair.Left),
-			byte(pair.Right>>8), byte(pair.Right),
-			byte(val>>8), byte(val),
+			0, 0, // subtable version
+			byte(subTableLen>>8), byte(subTableLen),
+			0, 1, // coverage
+
+			byte(nPairs>>8), byte(nPairs),
+			byte(searchRange>>8), byte(searchRange),
+			byte(entrySelector>>8), byte(entrySelector),
+			byte(rangeShift>>8), byte(rangeShift),
 		)
+		buf = append(buf, pairs[:6*nPairs]...)
+		pairs = pairs[6*nPairs:]
 	}
-	sort.Sort(blocks(buf[headerLen+subHeaderLen:]))
 
 	return buf
 }
-- 
2.43.0


From d6c7edefb2d3b6435407d9534cfa33da030004a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:23 +0000
Subject: [PATCH 43/76] fix: the standard ligatures must be an optional feature

---
 ligatures.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ligatures.go b/ligatures.go
index 2497dad..de2f8dc 100644
--- a/ligatures.go
+++ b/ligatures.go
@@ -75,7 +75,10 @@ ligLoop:
 	}
 	gsub := &gtab.Info{
 		ScriptList: map[language.Tag]*gtab.Features{
-			language.MustParse("und-Latn-x-latn"): {Optional: []gtab.FeatureIndex{0}},
+			language.MustParse("und-Latn-x-latn"): {
+				Required: 0xFFFF, // no required feature
+				Optional: []gtab.FeatureIndex{0},
+			},
 		},
 		FeatureList: []*gtab.Feature{
 			{Tag: "liga", Lookups: []gtab.LookupIndex{0}},
-- 
2.43.0


From 07ece117de50613c0245c43a1ba050aec93f7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:26 +0000
Subject: [PATCH 44/76] fix: round fractional glyph widths in Layout

---
 layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout.go b/layout.go
index 84f4273..c76de3c 100644
--- a/layout.go
+++ b/layout.go
@@ -17,6 +17,8 @@
 package sfnt
 
 import (
+	"math"
+
 	"golang.org/x/text/language"
 	"seehuhn.de/go/postscript/funit"
 	"seehuhn.de/go/sfnt/cmap"
@@ -89,7 +91,7 @@ func (l *Layouter) Layout(s string) []glyph.Info {
 	for i := range seq {
 		gid := seq[i].GID
 		if int(gid) < numGlyphs && !font.Gdef.IsMark(gid) {
-			seq[i].Advance = funit.Int16(font.GlyphWidth(gid)) // TODO(voss)
+			seq[i].Advance = funit.Int16(math.Round(font.GlyphWidth(gid))) // TODO(voss)
 		}
 	}
 
-- 
2.43.0


From 533852e63e7ab75e5970d265b9a6d986c917b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:21 +0000
Subject: [PATCH 45/76] fix: keep existing glyph names from short name lists

---
 names.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/names.go b/names.go
index 80946ee..85f5c84 100644
--- a/names.go
+++ b/names.go
@@ -64,9 +64,7 @@ func (f *Font) MakeGlyphNames() []string {
 			glyphNames[gid] = g.Name
 		}
 	case *glyf.Outlines:
-		if len(f.Names) == len(f.Glyphs) {
-			copy(glyphNames, f.Names)
-		}
+		copy(glyphNames, f.Names) // the list of names may be short
 	default:
 		panic("unexpected font type")
 	}
-- 
2.43.0


From 1e65b1dd45a4f700f4ddd1c4ee3060ba316976a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:22 +0000
Subject: [PATCH 46/76] fix: do not panic in MakeGlyphNames for glyph IDs
 outside the font

---
 names.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/names.go b/names.go
index 85f5c84..8582b24 100644
--- a/names.go
+++ b/names.go
@@ -24,6 +24,7 @@ import (
 
 	"seehuhn.de/go/sfnt/cff"
 	"seehuhn.de/go/sfnt/glyf"
+	"seehuhn.de/go/sfnt/glyph"
 	"seehuhn.de/go/sfnt/opentype/gtab"
 )
 
@@ -94,7 +95,7 @@ func (f *Font) MakeGlyphNames() []string {
 		a, b := cmap.CodeRange()
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if glyphNames[gid] != "" {
+			if int(gid) >= len(glyphNames) || glyphNames[gid] != "" {
 				// This includes the case of unmapped runes (gid == 0).
 				continue
 			}
@@ -106,6 +107,18 @@ func (f *Font) MakeGlyphNames() []string {
 		}
 	}
 
+	// nameOf returns the name of a glyph, or the empty string if there is no
+	// name or no such glyph.
+	nameOf := func(gid glyph.ID) string {
+		if int(gid) >= len(glyphNames) {
+			return ""
+		}
+		return glyphNames[gid]
+	}
+	isMissing := func(gid glyph.ID) bool {
+		return int(gid) < len(glyphNames) && glyphNames[gid] == ""
+	}
+
 	if f.Gsub != nil {
 		for _, lookup := range f.Gsub.LookupList {
 			for _, subtable := range lookup.Subtables {
@@ -113,7 +126,7 @@ func (f *Font) MakeGlyphNames() []string {
 				case *gtab.Gsub1_1:
 					for origGid := range subtable.Cov {
 						newGid := origGid + subtable.Delta
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
+						if nameOf(origGid) == "" || !isMissing(newGid) {
 							continue
 						}
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
@@ -121,18 +134,18 @@ func (f *Font) MakeGlyphNames() []string {
 				case *gtab.Gsub1_2:
 					for origGid, idx := range subtable.Cov {
 						newGid := subtable.SubstituteGlyphIDs[idx]
-						if glyphNames[origGid] == "" || glyphNames[newGid] != "" {
+						if nameOf(origGid) == "" || !isMissing(newGid) {
 							continue
 						}
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub3_1:
 					for origGid, idx := range subtable.Cov {
-						if glyphNames[origGid] == "" {
+						if nameOf(origGid) == "" {
 							continue
 						}
 						for _, newGid := range subtable.Alternates[idx] {
-							if glyphNames[newGid] == "" {
+							if isMissing(newGid) {
 								glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 							}
 						}
@@ -140,7 +153,7 @@ func (f *Font) MakeGlyphNames() []string {
 				case *gtab.Gsub4_1:
 					var nn []string
 					for origGid, idx := range subtable.Cov {
-						name := glyphNames[origGid]
+						name := nameOf(origGid)
 						if name == "" {
 							continue
 						}
@@ -149,12 +162,15 @@ func (f *Font) MakeGlyphNames() []string {
 						for _, lig := range subtable.Repl[idx] {
 							nn = nn[:1]
 							for _, gid := range lig.In {
-								if name := glyphNames[gid]; name != "" {
+								if name := nameOf(gid); name != "" {
 									nn = append(nn, name)
 								} else {
 									continue replLoop
 								}
 							}
+							if int(lig.Out) >= len(glyphNames) {
+								continue
+							}
 							newName := strings.Join(nn, "_")
 							glyphNames[lig.Out] = makeVariant(used, newName)
 						}
-- 
2.43.0


From a04a512d7015a494659350a6b43cfd585d8acb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 47/76] fix: do not overwrite existing names with ligature
 names

---
 names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 8582b24..c3e7ff5 100644
--- a/names.go
+++ b/names.go
@@ -168,7 +168,7 @@ func (f *Font) MakeGlyphNames() []string {
 									continue replLoop
 								}
 							}
-							if int(lig.Out) >= len(glyphNames) {
+							if !isMissing(lig.Out) {
 								continue
 							}
 							newName := strings.Join(nn, "_")
-- 
2.43.0


From 9d9f16dc501d1c79c24dba3399bec90a6a71e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:30 +0000
Subject: [PATCH 48/76] fix: glyph names must not depend on the map iteration
 order

---
 names.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/names.go b/names.go
index c3e7ff5..c32a7eb 100644
--- a/names.go
+++ b/names.go
@@ -18,8 +18,11 @@ package sfnt
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
+	"golang.org/x/exp/maps"
+
 	"seehuhn.de/go/postscript/type1/names"
 
 	"seehuhn.de/go/sfnt/cff"
@@ -124,7 +127,7 @@ func (f *Font) MakeGlyphNames() []string {
 			for _, subtable := range lookup.Subtables {
 				switch subtable := subtable.(type) {
 				case *gtab.Gsub1_1:
-					for origGid := range subtable.Cov {
+					for _, origGid := range sortedGlyphs(subtable.Cov) {
 						newGid := origGid + subtable.Delta
 						if nameOf(origGid) == "" || !isMissing(newGid) {
 							continue
@@ -132,7 +135,8 @@ func (f *Font) MakeGlyphNames() []string {
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub1_2:
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range sortedGlyphs(subtable.Cov) {
+						idx := subtable.Cov[origGid]
 						newGid := subtable.SubstituteGlyphIDs[idx]
 						if nameOf(origGid) == "" || !isMissing(newGid) {
 							continue
@@ -140,7 +144,8 @@ func (f *Font) MakeGlyphNames() []string {
 						glyphNames[newGid] = makeVariant(used, glyphNames[origGid])
 					}
 				case *gtab.Gsub3_1:
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range sortedGlyphs(subtable.Cov) {
+						idx := subtable.Cov[origGid]
 						if nameOf(origGid) == "" {
 							continue
 						}
@@ -152,7 +157,8 @@ func (f *Font) MakeGlyphNames() []string {
 					}
 				case *gtab.Gsub4_1:
 					var nn []string
-					for origGid, idx := range subtable.Cov {
+					for _, origGid := range sortedGlyphs(subtable.Cov) {
+						idx := subtable.Cov[origGid]
 						name := nameOf(origGid)
 						if name == "" {
 							continue
@@ -198,6 +204,14 @@ func (f *Font) MakeGlyphNames() []string {
 	return glyphNames
 }
 
+// sortedGlyphs returns the glyphs from a coverage table in increasing order, so
+// that the generated names do not depend on the map iteration order.
+func sortedGlyphs[T any](cov map[glyph.ID]T) []glyph.ID {
+	keys := maps.Keys(cov)
+	slices.Sort(keys)
+	return keys
+}
+
 func makeVariant(used map[string]bool, basename string) string {
 	try := 0
 	name := basename
-- 
2.43.0


From 28228566c53ce98fff14e346690a68a1d707892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:26 +0000
Subject: [PATCH 49/76] fix: limit the length of generated glyph names

---
 names.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/names.go b/names.go
index c32a7eb..3834567 100644
--- a/names.go
+++ b/names.go
@@ -212,6 +212,11 @@ func sortedGlyphs[T any](cov map[glyph.ID]T) []glyph.ID {
 	return keys
 }
 
+// maxNameLength is the maximum length of names in PostScript.
+const maxNameLength = 127
+
+// makeVariant returns an unused name based on basename.
+// If the name would be too long, the empty string is returned.
 func makeVariant(used map[string]bool, basename string) string {
 	try := 0
 	name := basename
@@ -219,6 +224,9 @@ func makeVariant(used map[string]bool, basename string) string {
 		try++
 		name = fmt.Sprintf("%s.%d", basename, try)
 	}
+	if len(name) > maxNameLength {
+		return ""
+	}
 	used[name] = true
 	return name
 }
-- 
2.43.0


From 4f981220ed77540f174d71d3e5dde25aa12ce0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:42 +0000
Subject: [PATCH 50/76] fix: write lookup flags and line breaks the way the
 parser reads them

---
 opentype/gtab/builder/explain.go | 38 ++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index 7d9ec60..e22ede4 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -215,7 +215,9 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 
 			case *gtab.Gpos2_2:
 				checkType(2)
-				ee.w.WriteString("\n\t")
+				if i == 0 {
+					ee.w.WriteString("\n\t")
+				}
 				ee.w.WriteRune('/')
 				ee.writeGlyphList(l.Cov.Glyphs())
 				ee.w.WriteRune('/')
@@ -271,21 +273,27 @@ func ExplainGpos(fontInfo *sfnt.Font) []string {
 			case *gtab.Gpos4_1:
 				checkType(4)
 				markGlyphs := l.MarkCov.Glyphs()
-				for i, gid := range markGlyphs {
-					ee.w.WriteString("\n\tmark ")
+				for j, gid := range markGlyphs {
+					if i == 0 || j > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("mark ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					rec := l.MarkArray[i]
+					rec := l.MarkArray[j]
 					fmt.Fprintf(ee.w, " %d@%d,%d", rec.Class, rec.Table.X, rec.Table.Y)
 					ee.w.WriteRune(';')
 				}
 
 				baseGlyphs := l.BaseCov.Glyphs()
-				for i, gid := range baseGlyphs {
-					ee.w.WriteString("\n\tbase ")
+				for j, gid := range baseGlyphs {
+					if i == 0 || j > 0 || len(markGlyphs) > 0 {
+						ee.w.WriteString("\n\t")
+					}
+					ee.w.WriteString("base ")
 					ee.writeGlyph(gid)
 					ee.w.WriteRune(':')
-					anchors := l.BaseArray[i]
+					anchors := l.BaseArray[j]
 					for _, a := range anchors {
 						fmt.Fprintf(ee.w, " @%d,%d", a.X, a.Y)
 					}
@@ -372,7 +380,7 @@ func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 		ee.w.WriteString(" -base")
 	}
 	if flags&gtab.IgnoreLigatures != 0 {
-		ee.w.WriteString(" -lig")
+		ee.w.WriteString(" -ligs")
 	}
 	// if flags&UseMarkFilteringSet != 0 {
 	// 	ee.w.WriteString(" -UseMarkFilteringSet")
@@ -582,6 +590,7 @@ func (ee *explainer) explainSeqContext1(l *gtab.SeqContext1) {
 }
 
 func (ee *explainer) explainSeqContext2(l *gtab.SeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("class", l.Input)
 	ee.w.WriteRune('/')
 	ee.explainCoverage(l.Cov)
@@ -604,10 +613,8 @@ func (ee *explainer) explainSeqContext2(l *gtab.SeqContext2) {
 }
 
 func (ee *explainer) explainSeqContext3(l *gtab.SeqContext3) {
-	for i, cov := range l.Input {
-		if i > 0 {
-			ee.w.WriteRune(' ')
-		}
+	for _, cov := range l.Input {
+		ee.w.WriteRune(' ')
 		ee.writeCoveredSet(cov.ToTable())
 	}
 	ee.w.WriteString(" -> ")
@@ -641,6 +648,7 @@ func (ee *explainer) explainChainedSeqContext1(l *gtab.ChainedSeqContext1) {
 }
 
 func (ee *explainer) explainChainedSeqContext2(l *gtab.ChainedSeqContext2) {
+	ee.w.WriteRune(' ')
 	ee.defineClasses("backtrackclass", l.Backtrack)
 	ee.defineClasses("inputclass", l.Input)
 	ee.defineClasses("lookaheadclass", l.Lookahead)
@@ -671,10 +679,8 @@ func (ee *explainer) explainChainedSeqContext2(l *gtab.ChainedSeqContext2) {
 }
 
 func (ee *explainer) explainChainedSeqContext3(l *gtab.ChainedSeqContext3) {
-	for i, set := range copyRev(l.Backtrack) {
-		if i > 0 {
-			ee.w.WriteRune(' ')
-		}
+	for _, set := range copyRev(l.Backtrack) {
+		ee.w.WriteRune(' ')
 		cov := set.ToTable()
 		ee.writeCoveredSet(cov)
 	}
-- 
2.43.0


From 27e5642ae0a1ef378646f4b3c5bd797df2a09006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:00 +0000
Subject: [PATCH 51/76] fix: describe glyphs in a form which the parser reads
 back

---
 opentype/gtab/builder/explain.go | 55 +++++++++++++++++++++++---------
 opentype/gtab/builder/lexer.go   |  9 ++++--
 opentype/gtab/builder/parser.go  | 22 ++++++++-----
 3 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/opentype/gtab/builder/explain.go b/opentype/gtab/builder/explain.go
index e22ede4..765c112 100644
--- a/opentype/gtab/builder/explain.go
+++ b/opentype/gtab/builder/explain.go
@@ -20,6 +20,8 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/sfnt"
@@ -59,7 +61,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{key + l.Delta},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub1_2:
 				checkType(1)
@@ -70,7 +72,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						to:   []glyph.ID{l.SubstituteGlyphIDs[idx]},
 					})
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, true)
 
 			case *gtab.Gsub2_1:
 				checkType(2)
@@ -111,7 +113,7 @@ func ExplainGsub(fontInfo *sfnt.Font) string {
 						})
 					}
 				}
-				ee.explainSeqMappings(mappings)
+				ee.explainSeqMappings(mappings, false)
 
 			case *gtab.SeqContext1:
 				checkType(5)
@@ -341,21 +343,27 @@ type explainer struct {
 }
 
 func newExplainer(fontInfo *sfnt.Font) *explainer {
-	mappings := make([]string, fontInfo.NumGlyphs())
+	numGlyphs := fontInfo.NumGlyphs()
+
+	mappings := make([]string, numGlyphs)
 	if cmap, _ := fontInfo.CMapTable.GetBest(); cmap != nil {
 		a, b := cmap.CodeRange()
+		b = min(b, unicode.MaxRune)
 		for r := a; r <= b; r++ {
 			gid := cmap.Lookup(r)
-			if gid != 0 {
+			// Only use characters which the parser can read back.
+			if gid != 0 && int(gid) < numGlyphs && utf8.ValidRune(r) && unicode.IsPrint(r) {
 				mappings[gid] = fmt.Sprintf("%q", string([]rune{r}))
 			}
 		}
 	}
 
-	names := make([]string, fontInfo.NumGlyphs())
+	// A name can only be used, if the parser resolves it to the same glyph.
+	byName := makeNameMap(fontInfo)
+	names := make([]string, numGlyphs)
 	for i := range names {
 		name := fontInfo.GlyphName(glyph.ID(i))
-		if name != "" {
+		if gid, ok := byName[name]; ok && int(gid) == i && canUseName(name) {
 			names[i] = name
 		} else {
 			names[i] = fmt.Sprintf("%d", i)
@@ -369,6 +377,21 @@ func newExplainer(fontInfo *sfnt.Font) *explainer {
 	}
 }
 
+// canUseName returns true, if the parser reads the given glyph name as a
+// single identifier which has no special meaning at the start of a glyph list.
+func canUseName(name string) bool {
+	switch name {
+	case "", "class", "inputclass", "backtrackclass", "lookaheadclass":
+		return false
+	}
+	for i, r := range name {
+		if !isIdentifierRune(r, i == 0) {
+			return false
+		}
+	}
+	return true
+}
+
 func (ee *explainer) explainFlags(flags gtab.LookupFlags) {
 	if flags&gtab.IgnoreMarks != 0 {
 		ee.w.WriteString(" -marks")
@@ -395,7 +418,9 @@ type mapping struct {
 	to   []glyph.ID
 }
 
-func (ee *explainer) explainSeqMappings(mm []mapping) {
+// explainSeqMappings writes a list of mappings.  If allowRange is true,
+// ranges of glyphs may be used to abbreviate one-to-one mappings.
+func (ee *explainer) explainSeqMappings(mm []mapping, allowRange bool) {
 	sort.SliceStable(mm, func(i, j int) bool {
 		return mm[i].from[0] < mm[j].from[0]
 	})
@@ -405,8 +430,8 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		ee.w.WriteString(sep)
 		sep = ", "
 
-		canRange := len(mm) > 2
-		for i := 1; canRange && i < len(mm); i++ {
+		canRange := allowRange && len(mm) > 2
+		for i := 0; canRange && i < len(mm); i++ {
 			if len(mm[i].from) != 1 || len(mm[i].to) != 1 {
 				canRange = false
 			}
@@ -414,11 +439,10 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 
 		rangeLen := 1
 		if canRange {
-			delta := mm[0].to[0] - mm[0].from[0]
 			for i := 1; i < len(mm); i++ {
-				from := mm[i].from[0]
-				to := mm[i].to[0]
-				if from != mm[i-1].from[0]+1 || to != from+delta {
+				from := int(mm[i].from[0])
+				to := int(mm[i].to[0])
+				if from != int(mm[i-1].from[0])+1 || to != int(mm[i-1].to[0])+1 {
 					break
 				}
 				rangeLen++
@@ -426,7 +450,8 @@ func (ee *explainer) explainSeqMappings(mm []mapping) {
 		}
 
 		if rangeLen > 2 {
-			fmt.Fprintf(ee.w, "%s-%s -> %s-%s",
+			// The spaces around the hyphens are needed for numeric glyph IDs.
+			fmt.Fprintf(ee.w, "%s - %s -> %s - %s",
 				ee.names[mm[0].from[0]],
 				ee.names[mm[rangeLen-1].from[0]],
 				ee.names[mm[0].to[0]],
diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index 177f97d..e415434 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -170,7 +170,7 @@ func lexStart(l *lexer) stateFn {
 		l.emit(itemEOL)
 		l.line++
 		return lexStart
-	case unicode.IsLetter(r) || r == '.' || r == '_':
+	case isIdentifierRune(r, true):
 		return lexIdentifier
 	case r == '"':
 		return lexString
@@ -206,10 +206,15 @@ func lexStart(l *lexer) stateFn {
 	}
 }
 
+// isIdentifierRune returns true if r can be part of an identifier.
+func isIdentifierRune(r rune, first bool) bool {
+	return unicode.IsLetter(r) || r == '.' || r == '_' || !first && unicode.IsDigit(r)
+}
+
 func lexIdentifier(l *lexer) stateFn {
 	for {
 		r := l.next()
-		if !(unicode.IsLetter(r) || r == '.' || r == '_' || unicode.IsDigit(r)) {
+		if !isIdentifierRune(r, false) {
 			if r != eof {
 				l.backup()
 			}
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index c29a455..43b5572 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -37,14 +37,7 @@ import (
 
 // Parse decodes the textual description of a LookupList.
 func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err error) {
-	numGlyphs := fontInfo.NumGlyphs()
-	byName := make(map[string]glyph.ID)
-	for i := glyph.ID(0); i < glyph.ID(numGlyphs); i++ {
-		glyphName := fontInfo.GlyphName(i)
-		if glyphName != "" {
-			byName[glyphName] = i
-		}
-	}
+	byName := makeNameMap(fontInfo)
 
 	cmap, err := fontInfo.CMapTable.GetBest()
 	if err != nil {
@@ -77,6 +70,19 @@ func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err erro
 	return
 }
 
+// makeNameMap returns the glyphs which can be referred to by name.
+func makeNameMap(fontInfo *sfnt.Font) map[string]glyph.ID {
+	numGlyphs := fontInfo.NumGlyphs()
+	byName := make(map[string]glyph.ID)
+	for i := 0; i < numGlyphs; i++ {
+		glyphName := fontInfo.GlyphName(glyph.ID(i))
+		if glyphName != "" {
+			byName[glyphName] = glyph.ID(i)
+		}
+	}
+	return byName
+}
+
 type parser struct {
 	tokens  <-chan item
 	backlog []item
-- 
2.43.0


From 861d768d7b11ba713f6bb2d1b1bdeab0eab78fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:02 +0000
Subject: [PATCH 52/76] fix: do not leak a goroutine after an unmapped
 character in a string

---
 opentype/gtab/builder/parser.go | 53 ++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 43b5572..d7a86c9 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1128,7 +1128,7 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
-			for r := range decodeString(item.val) {
+			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
 				if gid == 0 {
 					p.fatal("rune %q not in mapped in font", r)
@@ -1394,35 +1394,32 @@ func (p *parser) optionalIdentifier(name string) bool {
 	return true
 }
 
-func decodeString(s string) <-chan rune {
-	c := make(chan rune)
-	go func() {
-		s := s[1 : len(s)-1]
-		escape := false
-		for _, r := range s {
-			if escape {
-				escape = false
-				switch r {
-				case 'n':
-					c <- '\n'
-				case 'r':
-					c <- '\r'
-				case 't':
-					c <- '\t'
-				default:
-					c <- r
-				}
-				continue
-			}
-			if r == '\\' {
-				escape = true
-				continue
+// decodeString returns the characters of a quoted string.
+func decodeString(s string) []rune {
+	var res []rune
+	s = s[1 : len(s)-1]
+	escape := false
+	for _, r := range s {
+		if escape {
+			escape = false
+			switch r {
+			case 'n':
+				r = '\n'
+			case 'r':
+				r = '\r'
+			case 't':
+				r = '\t'
 			}
-			c <- r
+			res = append(res, r)
+			continue
 		}
-		close(c)
-	}()
-	return c
+		if r == '\\' {
+			escape = true
+			continue
+		}
+		res = append(res, r)
+	}
+	return res
 }
 
 func isIdentifier(i item, val string) bool {
-- 
2.43.0


From 0321ec69ed19086047b2a55d3911f8e51202725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 53/76] fix: report a line number for lexer errors and at the
 end of the input

---
 opentype/gtab/builder/lexer.go  | 2 ++
 opentype/gtab/builder/parser.go | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index e415434..3cb2e73 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -137,6 +137,8 @@ func (l *lexer) errorf(format string, args ...interface{}) stateFn {
 	l.items <- item{
 		typ: itemError,
 		val: fmt.Sprintf(format, args...),
+
+		line: l.line,
 	}
 	return nil
 }
diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index d7a86c9..f3aa6aa 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -85,6 +85,7 @@ func makeNameMap(fontInfo *sfnt.Font) map[string]glyph.ID {
 
 type parser struct {
 	tokens  <-chan item
+	last    item // the last item received from the lexer
 	backlog []item
 
 	fontInfo *sfnt.Font
@@ -1349,7 +1350,11 @@ func (p *parser) readItem() item {
 		p.backlog = p.backlog[:n]
 		return item
 	}
-	return <-p.tokens
+	if item, ok := <-p.tokens; ok {
+		p.last = item
+	}
+	// After the end of the input, the final item (EOF or error) is repeated.
+	return p.last
 }
 
 func (p *parser) peek() item {
-- 
2.43.0


From 723d2a73788ffdf9bfcde53452bbac603364a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:05 +0000
Subject: [PATCH 54/76] fix: parse lookup descriptions for fonts without a
 character map

---
 opentype/gtab/builder/parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index f3aa6aa..5238d70 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -39,10 +39,8 @@ import (
 func Parse(fontInfo *sfnt.Font, input string) (lookups gtab.LookupList, err error) {
 	byName := makeNameMap(fontInfo)
 
-	cmap, err := fontInfo.CMapTable.GetBest()
-	if err != nil {
-		return nil, err
-	}
+	// If there is no usable cmap, glyphs can still be given by name or ID.
+	cmap, _ := fontInfo.CMapTable.GetBest()
 
 	_, tokens := lex(input)
 	p := &parser{
@@ -1129,6 +1127,9 @@ func (p *parser) readGlyphList() []glyph.ID {
 			next = append(next, gid)
 
 		case itemString:
+			if p.cmap == nil {
+				p.fatal("no character mapping for string %s", item.val)
+			}
 			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
 				if gid == 0 {
-- 
2.43.0


From ec433b59bc3f0d31e27aed800f9cba86e3df3f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:15 +0000
Subject: [PATCH 55/76] fix: do not stop reading lookup descriptions at NUL
 characters

---
 opentype/gtab/builder/lexer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opentype/gtab/builder/lexer.go b/opentype/gtab/builder/lexer.go
index 3cb2e73..5b12fbd 100644
--- a/opentype/gtab/builder/lexer.go
+++ b/opentype/gtab/builder/lexer.go
@@ -125,6 +125,12 @@ func (l *lexer) next() (r rune) {
 	return r
 }
 
+// atEOF returns true if r, the result of the last call to next, marks the
+// end of the input rather than a NUL character in the input.
+func (l *lexer) atEOF(r rune) bool {
+	return r == eof && l.width == 0
+}
+
 func (l *lexer) ignore() {
 	l.start = l.pos
 }
@@ -153,7 +159,7 @@ func lexStart(l *lexer) stateFn {
 	// Skip whitespace.
 	for {
 		r := l.next()
-		if r == eof {
+		if l.atEOF(r) {
 			l.emit(itemEOF)
 			return nil
 		}
@@ -217,9 +223,7 @@ func lexIdentifier(l *lexer) stateFn {
 	for {
 		r := l.next()
 		if !isIdentifierRune(r, false) {
-			if r != eof {
-				l.backup()
-			}
+			l.backup()
 			l.emit(itemIdentifier)
 			return lexStart
 		}
@@ -230,7 +234,7 @@ func lexString(l *lexer) stateFn {
 	escape := false
 	for {
 		r := l.next()
-		if r == eof || r == '\n' {
+		if l.atEOF(r) || r == '\n' {
 			return l.errorf("unterminated string")
 		}
 		if escape {
@@ -264,7 +268,7 @@ func lexInteger(l *lexer) stateFn {
 func lexComment(l *lexer) stateFn {
 	for {
 		r := l.next()
-		if r == eof || r == '\n' {
+		if l.atEOF(r) || r == '\n' {
 			break
 		}
 	}
-- 
2.43.0


From aec4456c2443155c0ab4fa88548fd812701d24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:34 +0000
Subject: [PATCH 56/76] fix: reject characters which are mapped to glyphs
 outside the font

---
 opentype/gtab/builder/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentype/gtab/builder/parser.go b/opentype/gtab/builder/parser.go
index 5238d70..6c34b2d 100644
--- a/opentype/gtab/builder/parser.go
+++ b/opentype/gtab/builder/parser.go
@@ -1132,7 +1132,7 @@ func (p *parser) readGlyphList() []glyph.ID {
 			}
 			for _, r := range decodeString(item.val) {
 				gid := p.cmap.Lookup(r)
-				if gid == 0 {
+				if gid == 0 || int(gid) >= p.fontInfo.NumGlyphs() {
 					p.fatal("rune %q not in mapped in font", r)
 				}
 				next = append(next, gid)
-- 
2.43.0


From 4265ca4d1e3c0065866686fb4900ae7266383cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:32 +0000
Subject: [PATCH 57/76] fix: keep the character map in font subsets

---
 cmap/format4.go | 21 +++++++++++++++++----
 subset.go       | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/cmap/format4.go b/cmap/format4.go
index 68b52d0..52fbea4 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -19,6 +19,7 @@ package cmap
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"math/bits"
 
 	"seehuhn.de/go/dijkstra"
@@ -107,11 +108,21 @@ func (cmap Format4) Lookup(r rune) glyph.ID {
 
 // Encode encodes the subtable into a byte slice.
 func (cmap Format4) Encode(language uint16) []byte {
+	data, err := cmap.TryEncode(language)
+	if err != nil {
+		panic(err)
+	}
+	return data
+}
+
+// TryEncode is like [Format4.Encode], but returns an error if there are too
+// many mappings for a format 4 subtable.
+func (cmap Format4) TryEncode(language uint16) ([]byte, error) {
 	g := makeSegments(cmap)
 	// TODO(voss): try dag.ShortestPath
 	segments, err := dijkstra.ShortestPath[uint32, *segment, int](g, 0, 0x10000)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 
 	var StartCode, EndCode, IDDelta, IDRangeOffsets, GlyphIDArray []uint16
@@ -125,7 +136,7 @@ func (cmap Format4) Encode(language uint16) []byte {
 			offs := 2 * (len(segments) - i + // remaining entries in IDRangeOffsets
 				len(GlyphIDArray)) // any previous entries in GlyphIDArray
 			if offs > 65535 {
-				panic("too many mappings for a format 4 subtable")
+				return nil, errTooManyMappings
 			}
 			IDRangeOffsets = append(IDRangeOffsets, uint16(offs))
 			for c := uint32(s.first); c <= uint32(s.last); c++ {
@@ -137,7 +148,7 @@ func (cmap Format4) Encode(language uint16) []byte {
 	// Encode the data in the binary format
 	segCount := len(StartCode)
 	if 2*(8+4*segCount+len(GlyphIDArray)) > 65535 {
-		panic("too many mappings for a format 4 subtable")
+		return nil, errTooManyMappings
 	}
 	sel := bits.Len(uint(segCount))
 	data := &cmapFormat4{
@@ -158,9 +169,11 @@ func (cmap Format4) Encode(language uint16) []byte {
 		_ = binary.Write(buf, binary.BigEndian, x)
 	}
 
-	return buf.Bytes()
+	return buf.Bytes(), nil
 }
 
+var errTooManyMappings = errors.New("cmap: too many mappings for a format 4 subtable")
+
 // CodeRange returns the smallest and largest code point in the subtable.
 func (cmap Format4) CodeRange() (low, high rune) {
 	if len(cmap) == 0 {
diff --git a/subset.go b/subset.go
index 13b21d7..f95e793 100644
--- a/subset.go
+++ b/subset.go
@@ -50,12 +50,15 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	if f.CMapTable != nil {
 		res.CMapTable = make(cmap.Table, len(f.CMapTable))
 		for key := range f.CMapTable {
-			c, err := res.CMapTable.Get(key)
+			// Subtables are copied using the original character codes, without
+			// any conversion to Unicode.
+			single := cmap.Table{key: f.CMapTable[key]}
+			c, err := single.GetNoLang(key.PlatformID, key.EncodingID)
 			if err != nil {
 				continue
 			}
 			c = s.SubsetCMap(c)
-			res.CMapTable[key] = c.Encode(key.Language)
+			res.CMapTable[key] = encodeCMap(c, key.Language)
 		}
 	}
 	res.Gsub = s.SubsetGsub(f.Gsub)
@@ -99,6 +102,16 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 	}
 
 	switch c := c.(type) {
+	case *cmap.Format0:
+		// The new glyph IDs may not fit into a byte any more.
+		res := cmap.Format4{}
+		for code, oldGid := range c.Data {
+			newGid := s.newGid[glyph.ID(oldGid)]
+			if newGid != 0 {
+				res[uint16(code)] = newGid
+			}
+		}
+		return res
 	case cmap.Format4:
 		res := cmap.Format4{}
 		for key, oldGid := range c {
@@ -124,6 +137,24 @@ func (s *subsetter) SubsetCMap(c cmap.Subtable) cmap.Subtable {
 	}
 }
 
+// encodeCMap encodes a cmap subtable.  Format 12 is used in case there are too
+// many mappings for a format 4 subtable.
+func encodeCMap(c cmap.Subtable, language uint16) []byte {
+	c4, ok := c.(cmap.Format4)
+	if !ok {
+		return c.Encode(language)
+	}
+
+	if data, err := c4.TryEncode(language); err == nil {
+		return data
+	}
+	c12 := make(cmap.Format12, len(c4))
+	for code, gid := range c4 {
+		c12[uint32(code)] = gid
+	}
+	return c12.Encode(language)
+}
+
 // TODO(voss): This is incomplete.  Finish this!
 func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 	if old == nil {
-- 
2.43.0


From 39b9371562a44817c98b75dda75deb09165ea4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:34 +0000
Subject: [PATCH 58/76] fix: include all components of composite glyphs in font
 subsets

---
 subset.go | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/subset.go b/subset.go
index f95e793..59eca0c 100644
--- a/subset.go
+++ b/subset.go
@@ -490,21 +490,10 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 		Maxp:   oldOutlines.Maxp,
 	}
 
-	todo := make(map[glyph.ID]bool, len(s.glyphs))
-	for _, oldGid := range s.glyphs {
-		todo[oldGid] = true
-	}
-	for len(todo) > 0 {
-		oldGid := pop(todo)
-		cc := oldOutlines.Glyphs[oldGid].Components()
-		for _, componentGidOld := range cc {
-			if _, ok := s.newGid[componentGidOld]; ok {
-				continue
-			}
-			componendGidNew := glyph.ID(len(s.glyphs))
-			s.glyphs = append(s.glyphs, componentGidOld)
-			s.newGid[oldGid] = componendGidNew
-			todo[componentGidOld] = true
+	// The list of glyphs grows while we add missing components.
+	for i := 0; i < len(s.glyphs); i++ {
+		for _, componentGidOld := range oldOutlines.Glyphs[s.glyphs[i]].Components() {
+			s.getNewGid(componentGidOld)
 		}
 	}
 
@@ -529,11 +518,3 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 
 	return newOutlines
 }
-
-func pop(todo map[glyph.ID]bool) glyph.ID {
-	for key := range todo {
-		delete(todo, key)
-		return key
-	}
-	panic("empty map")
-}
-- 
2.43.0


From a683f275b044fa5f60a5b35d1b9a358aebe0b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:35 +0000
Subject: [PATCH 59/76] fix: Subset must not write to the spare capacity of its
 argument

---
 subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index 59eca0c..a41944b 100644
--- a/subset.go
+++ b/subset.go
@@ -18,6 +18,7 @@ package sfnt
 
 import (
 	"fmt"
+	"slices"
 
 	"golang.org/x/exp/maps"
 	"seehuhn.de/go/postscript/cid"
@@ -40,7 +41,7 @@ func (f *Font) Subset(glyphs []glyph.ID) *Font {
 	res := f.Clone()
 
 	s := subsetter{
-		glyphs: glyphs,
+		glyphs: slices.Clone(glyphs), // more glyphs may be appended below
 		newGid: map[glyph.ID]glyph.ID{},
 	}
 	for newgid, oldGid := range glyphs {
-- 
2.43.0


From 9a9cb42c62b8e9c9d9220dc4cb9ee34233df0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:37 +0000
Subject: [PATCH 60/76] fix: renumber the kerning pairs in font subsets

---
 subset.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subset.go b/subset.go
index a41944b..48faf6d 100644
--- a/subset.go
+++ b/subset.go
@@ -394,7 +394,11 @@ func (s *subsetter) SubsetGpos(old *gtab.Info) *gtab.Info {
 					if _, ok := s.newGid[pair.Right]; !ok {
 						continue
 					}
-					sNew[pair] = adj
+					newPair := glyph.Pair{
+						Left:  s.newGid[pair.Left],
+						Right: s.newGid[pair.Right],
+					}
+					sNew[newPair] = adj
 				}
 				tNew.Subtables[j] = sNew
 			case *gtab.Gpos2_2:
-- 
2.43.0


From 0435097333d4cad34917621eef1fbe66861c7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:39 +0000
Subject: [PATCH 61/76] fix: keep ligature rules and feature references in font
 subsets

---
 subset.go | 58 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/subset.go b/subset.go
index 48faf6d..fd1f78a 100644
--- a/subset.go
+++ b/subset.go
@@ -173,7 +173,7 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 		for _, sOld := range tOld.Subtables {
 			switch sOld := sOld.(type) {
 			case *gtab.Gsub1_1:
-				for gid := range sOld.Cov {
+				for _, gid := range sOld.Cov.Glyphs() {
 					rules = append(rules, rule{
 						in:  []glyph.ID{gid},
 						out: []glyph.ID{gid + sOld.Delta},
@@ -201,8 +201,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 					})
 				}
 			case *gtab.Gsub4_1:
-				for gid, idx := range sOld.Cov {
-					for _, lig := range sOld.Repl[idx] {
+				for _, gid := range sOld.Cov.Glyphs() {
+					for _, lig := range sOld.Repl[sOld.Cov[gid]] {
 						in := make([]glyph.ID, 0, len(lig.In)+1)
 						in = append(in, gid)
 						in = append(in, lig.In...)
@@ -279,7 +279,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 	// step 3: create the new GSUB table
 	res := *old
 	res.LookupList = nil
-	for _, tOld := range old.LookupList {
+	newLookup := make(map[gtab.LookupIndex]gtab.LookupIndex)
+	for i, tOld := range old.LookupList {
 		tNew := &gtab.LookupTable{
 			Meta: tOld.Meta,
 		}
@@ -292,12 +293,8 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 				sNew := &gtab.Gsub1_2{
 					Cov: make(map[glyph.ID]int),
 				}
-				for oldOrig := range sOld.Cov {
-					newFrom, ok := s.newGid[oldOrig]
-					if !ok {
-						continue
-					}
-
+				for _, oldOrig := range s.inNewOrder(sOld.Cov.ToTable()) {
+					newFrom := s.newGid[oldOrig]
 					newTo := oldOrig + sOld.Delta
 					sNew.Cov[newFrom] = len(sNew.SubstituteGlyphIDs)
 					sNew.SubstituteGlyphIDs = append(sNew.SubstituteGlyphIDs, s.getNewGid(newTo))
@@ -312,14 +309,12 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 			case *gtab.Gsub3_1:
 				panic("not implemented")
 			case *gtab.Gsub4_1:
-				sNew := gtab.Gsub4_1{
+				sNew := &gtab.Gsub4_1{
 					Cov: make(coverage.Table),
 				}
-				for oldFirst, idx := range sOld.Cov {
-					newFirst, ok := s.newGid[oldFirst]
-					if !ok {
-						continue
-					}
+				for _, oldFirst := range s.inNewOrder(sOld.Cov) {
+					newFirst := s.newGid[oldFirst]
+					idx := sOld.Cov[oldFirst]
 					var ligs []gtab.Ligature
 				ligLoop:
 					for _, lig := range sOld.Repl[idx] {
@@ -342,6 +337,9 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 						sNew.Repl = append(sNew.Repl, ligs)
 					}
 				}
+				if len(sNew.Cov) > 0 {
+					tNew.Subtables = append(tNew.Subtables, sNew)
+				}
 			case *gtab.Gsub8_1:
 				panic("not implemented")
 			case *gtab.SeqContext1:
@@ -362,13 +360,41 @@ func (s *subsetter) SubsetGsub(old *gtab.Info) *gtab.Info {
 		}
 
 		if len(tNew.Subtables) > 0 {
+			newLookup[gtab.LookupIndex(i)] = gtab.LookupIndex(len(res.LookupList))
 			res.LookupList = append(res.LookupList, tNew)
 		}
 	}
 
+	// step 4: update the references to the lookups
+	res.FeatureList = make(gtab.FeatureListInfo, len(old.FeatureList))
+	for i, feature := range old.FeatureList {
+		newFeature := &gtab.Feature{Tag: feature.Tag}
+		for _, idx := range feature.Lookups {
+			if newIdx, ok := newLookup[idx]; ok {
+				newFeature.Lookups = append(newFeature.Lookups, newIdx)
+			}
+		}
+		res.FeatureList[i] = newFeature
+	}
+
 	return &res
 }
 
+// inNewOrder returns the glyphs from a coverage table which are present in the
+// subset.  The list is sorted by the new glyph IDs.
+func (s *subsetter) inNewOrder(cov coverage.Table) []glyph.ID {
+	var res []glyph.ID
+	for gid := range cov {
+		if s.hasOldGid(gid) {
+			res = append(res, gid)
+		}
+	}
+	slices.SortFunc(res, func(a, b glyph.ID) int {
+		return int(s.newGid[a]) - int(s.newGid[b])
+	})
+	return res
+}
+
 func (s *subsetter) SubsetGpos(old *gtab.Info) *gtab.Info {
 	if old == nil {
 		return nil
-- 
2.43.0


From c4f44afc2e68b92320c8df1ee8b193a5bc40b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:45 +0000
Subject: [PATCH 62/76] fix: do not panic in Subset when widths or glyph names
 are missing

---
 subset.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/subset.go b/subset.go
index fd1f78a..9408888 100644
--- a/subset.go
+++ b/subset.go
@@ -533,15 +533,19 @@ func (s *subsetter) SubsetGlyf(oldOutlines *glyf.Outlines) *glyf.Outlines {
 		newOutlines.Glyphs[newGid] = oldOutlines.Glyphs[oldGid].FixComponents(s.newGid)
 	}
 
-	newOutlines.Widths = make([]funit.Int16, len(s.glyphs))
-	for newGid, oldGid := range s.glyphs {
-		newOutlines.Widths[newGid] = oldOutlines.Widths[oldGid]
+	if oldOutlines.Widths != nil {
+		newOutlines.Widths = make([]funit.Int16, len(s.glyphs))
+		for newGid, oldGid := range s.glyphs {
+			newOutlines.Widths[newGid] = oldOutlines.Widths[oldGid]
+		}
 	}
 
 	if oldOutlines.Names != nil {
 		newOutlines.Names = make([]string, len(s.glyphs))
 		for newGid, oldGid := range s.glyphs {
-			newOutlines.Names[newGid] = oldOutlines.Names[oldGid]
+			if int(oldGid) < len(oldOutlines.Names) {
+				newOutlines.Names[newGid] = oldOutlines.Names[oldGid]
+			}
 		}
 	}
 
-- 
2.43.0


From e111da2d7c3790c1da4f2257f1468807b3466046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:41 +0000
Subject: [PATCH 63/76] fix: write CFF encodings where the encoded glyphs are
 not contiguous

---
 cff/encoding.go | 69 +++++++++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/cff/encoding.go b/cff/encoding.go
index e2aee37..3b96bca 100644
--- a/cff/encoding.go
+++ b/cff/encoding.go
@@ -106,11 +106,7 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 			if err != nil {
 				return nil, err
 			}
-			gid := lookup[sid]
-			if gid >= currentGid {
-				return nil, invalidSince("invalid encoding supplement")
-			}
-			if gid != 0 {
+			if gid := lookup[sid]; gid != 0 {
 				res[code] = gid
 			}
 		}
@@ -123,30 +119,60 @@ func readEncoding(p *parser.Parser, charset []int32) ([]glyph.ID, error) {
 // The encoding vector is given as a slice of glyph IDs (length 256),
 // where the glyph ID 0 is used to indicate a missing glyph.
 //
-// The encoded glyphs must form a contiguous range starting at glyph ID 1.
+// The main part of the encoding can only describe a contiguous range of
+// glyphs, starting at glyph ID 1.  All other codes are stored as supplements.
 //
 // The glyphNames argument is only used for supplemented encodings, where
-// one or more glyphs have multiple codes.
+// one or more glyphs have multiple codes, or where the encoded glyphs do not
+// form a contiguous range.
 func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
-	var maxGid glyph.ID
 	codes := map[glyph.ID]uint8{}
+	for code, gid := range encoding {
+		if gid == 0 {
+			continue
+		}
+		if _, ok := codes[gid]; !ok {
+			codes[gid] = uint8(code)
+		}
+	}
+
+	// The glyphs 1, ..., maxGid are described by the main part.
+	var maxGid glyph.ID
+	for maxGid < 255 {
+		if _, ok := codes[maxGid+1]; !ok {
+			break
+		}
+		maxGid++
+	}
+
 	type suppl struct {
 		code uint8
 		gid  glyph.ID
 	}
 	var extra []suppl
 	for code, gid := range encoding {
-		if gid == 0 {
+		if gid == 0 || gid <= maxGid && codes[gid] == uint8(code) {
 			continue
 		}
-		c8 := uint8(code)
-		if _, ok := codes[gid]; ok {
-			extra = append(extra, suppl{c8, gid})
-			continue
+		if int(gid) >= len(glyphNames) {
+			return nil, invalidSince("encoded glyph not in font")
+		}
+		extra = append(extra, suppl{uint8(code), gid})
+	}
+	if len(extra) > 255 {
+		return nil, invalidSince("too many encoding supplements")
+	}
+
+	// Supplements refer to glyphs by name.
+	if len(extra) > 0 {
+		lookup := make(map[int32]glyph.ID)
+		for gid, sid := range glyphNames {
+			lookup[sid] = glyph.ID(gid)
 		}
-		codes[gid] = c8
-		if gid > maxGid {
-			maxGid = gid
+		for _, s := range extra {
+			if lookup[glyphNames[s.gid]] != s.gid {
+				return nil, invalidSince("glyph name not unique")
+			}
 		}
 	}
 
@@ -159,11 +185,7 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	startGid := glyph.ID(1)
 	startCode := codes[startGid]
 	for gid := glyph.ID(1); gid <= maxGid; gid++ {
-		code, ok := codes[gid]
-		if !ok {
-			msg := fmt.Sprintf("encoded glyphs not contiguous (glyph %d not encoded)", gid)
-			return nil, invalidSince(msg)
-		}
+		code := codes[gid]
 		if int(gid-startGid) != int(code)-int(startCode) {
 			ss = append(ss, seg{startCode, uint8(gid - startGid - 1)})
 			startGid = gid
@@ -171,9 +193,6 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 		}
 	}
 	ss = append(ss, seg{startCode, uint8(maxGid - startGid)})
-	if len(ss) > 255 {
-		return nil, invalidSince("too many segments")
-	}
 
 	format0Len := 2 + int(maxGid)
 	format1Len := 2 + len(ss)*2
@@ -183,7 +202,7 @@ func encodeEncoding(encoding []glyph.ID, glyphNames []int32) ([]byte, error) {
 	}
 	var buf []byte
 	var extraBase int
-	if format0Len <= format1Len && maxGid <= 255 {
+	if format0Len <= format1Len {
 		extraBase = format0Len
 		buf = make([]byte, format0Len+extraLen)
 		// buf[0] = 0
-- 
2.43.0


From c631767de2b4b17aac12ba4cc121c37c1ff510fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:10 +0000
Subject: [PATCH 64/76] fix: avoid quadratic run time when encoding format 4
 character maps

---
 cmap/format4.go | 55 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/cmap/format4.go b/cmap/format4.go
index 52fbea4..312e673 100644
--- a/cmap/format4.go
+++ b/cmap/format4.go
@@ -118,7 +118,7 @@ func (cmap Format4) Encode(language uint16) []byte {
 // TryEncode is like [Format4.Encode], but returns an error if there are too
 // many mappings for a format 4 subtable.
 func (cmap Format4) TryEncode(language uint16) ([]byte, error) {
-	g := makeSegments(cmap)
+	g := &makeSegments{cmap: cmap}
 	// TODO(voss): try dag.ShortestPath
 	segments, err := dijkstra.ShortestPath[uint32, *segment, int](g, 0, 0x10000)
 	if err != nil {
@@ -198,9 +198,19 @@ type segment struct {
 	useValues bool
 }
 
-type makeSegments map[uint16]glyph.ID
+type makeSegments struct {
+	cmap map[uint16]glyph.ID
+
+	// The result of the last search for the end of a useValues segment.
+	// Searches which start with a mapped code in the range from searchStart to
+	// searchEnd-5 give the same result.
+	searchStart, searchEnd uint32
+	last                   uint16
+}
+
+func (g *makeSegments) AppendEdges(segs []*segment, v uint32) []*segment {
+	ms := g.cmap
 
-func (ms makeSegments) AppendEdges(segs []*segment, v uint32) []*segment {
 	if v > 0xFFFF {
 		return segs
 	}
@@ -234,10 +244,25 @@ func (ms makeSegments) AppendEdges(segs []*segment, v uint32) []*segment {
 	}
 
 	// as a last resort, store GID values explicitly
+	return append(segs, &segment{
+		first:     uint16(start),
+		last:      g.findEnd(start, delta),
+		useValues: true,
+	})
+}
+
+// findEnd returns the last code of the useValues segment which begins with the
+// given code.  The first code must be mapped.
+func (g *makeSegments) findEnd(start uint32, delta uint16) uint16 {
+	if g.searchStart <= start && start+5 <= g.searchEnd {
+		return g.last
+	}
+
+	ms := g.cmap
 	prevDelta := delta
 	numDelta := 1
 	numNotdef := 0
-	end = start + 1
+	end := start + 1
 	for end < 0xFFFF {
 		thisGid := ms[uint16(end)]
 
@@ -256,33 +281,27 @@ func (ms makeSegments) AppendEdges(segs []*segment, v uint32) []*segment {
 		}
 
 		if numDelta == 5 || numNotdef == 5 {
-			segs = append(segs, &segment{
-				first:     uint16(start),
-				last:      uint16(end - 5),
-				useValues: true,
-			})
-			return segs
+			g.searchStart, g.searchEnd = start, end
+			g.last = uint16(end - 5)
+			return g.last
 		}
 
 		end++
 	}
 
-	segs = append(segs, &segment{
-		first:     uint16(start),
-		last:      uint16(end - uint32(numNotdef) - 1),
-		useValues: true,
-	})
-	return segs
+	g.searchStart, g.searchEnd = start, end
+	g.last = uint16(end - uint32(numNotdef) - 1)
+	return g.last
 }
 
-func (ms makeSegments) Length(_ uint32, e *segment) int {
+func (g *makeSegments) Length(_ uint32, e *segment) int {
 	if e.useValues {
 		return 4 + (int(e.last-e.first) + 1)
 	}
 	return 4
 }
 
-func (ms makeSegments) To(_ uint32, e *segment) uint32 {
+func (g *makeSegments) To(_ uint32, e *segment) uint32 {
 	return uint32(e.last) + 1
 }
 
-- 
2.43.0


From 34e4fdf85b79ddef3ed585558b1e2ec185a699f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:18 +0000
Subject: [PATCH 65/76] fix: MakeSimple must not change glyphs which are shared
 with other fonts

---
 cff/convert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cff/convert.go b/cff/convert.go
index a6fc1b5..6625d10 100644
--- a/cff/convert.go
+++ b/cff/convert.go
@@ -43,6 +43,13 @@ func (o *Outlines) MakeSimple(glyphText map[glyph.ID]string) {
 // If glyphText is not nil, it is used to generate names for glyphs that do not
 // have a name yet.
 func (o *Outlines) makeNames(glyphText map[glyph.ID]string) {
+	// The glyphs may be shared with other fonts.
+	glyphs := make([]*Glyph, len(o.Glyphs))
+	for i, g := range o.Glyphs {
+		glyphs[i] = clone(g)
+	}
+	o.Glyphs = glyphs
+
 	o.Glyphs[0].Name = ".notdef"
 
 	// keep existing names, unless they are invalid or duplicate
-- 
2.43.0


From 9306f06ecc3a9972621471748015e585c8226c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:44 +0000
Subject: [PATCH 66/76] fix: limit the work for layout tables where data is
 shared

---
 opentype/classdef/classdef.go |  4 ++++
 opentype/coverage/coverage.go |  4 ++++
 opentype/coverage/set.go      |  4 ++++
 opentype/gdef/gdef.go         |  1 +
 opentype/gtab/gpos.go         | 10 ++++++++++
 opentype/gtab/gtab.go         |  1 +
 parser/error.go               |  5 +++++
 parser/parser.go              | 29 +++++++++++++++++++++++++++++
 8 files changed, 58 insertions(+)

diff --git a/opentype/classdef/classdef.go b/opentype/classdef/classdef.go
index 4369fa0..16c4b08 100644
--- a/opentype/classdef/classdef.go
+++ b/opentype/classdef/classdef.go
@@ -126,6 +126,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 			prevEnd = endGlyphID
 
 			if classValue != 0 {
+				err = p.Charge(2 * (int(endGlyphID) - int(startGlyphID) + 1))
+				if err != nil {
+					return nil, err
+				}
 				for j := int(startGlyphID); j <= int(endGlyphID); j++ {
 					res[glyph.ID(j)] = classValue
 				}
diff --git a/opentype/coverage/coverage.go b/opentype/coverage/coverage.go
index 1f1e7e9..4aee126 100644
--- a/opentype/coverage/coverage.go
+++ b/opentype/coverage/coverage.go
@@ -132,6 +132,10 @@ func Read(p *parser.Parser, pos int64) (Table, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.Charge(2 * (endGlyphID - startGlyphID + 1))
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = pos
 				pos++
diff --git a/opentype/coverage/set.go b/opentype/coverage/set.go
index c215732..4c777ad 100644
--- a/opentype/coverage/set.go
+++ b/opentype/coverage/set.go
@@ -100,6 +100,10 @@ func ReadSet(p *parser.Parser, pos int64) (Set, error) {
 					Reason:    "invalid coverage table (format 2)",
 				}
 			}
+			err = p.Charge(2 * (endGlyphID - startGlyphID + 1))
+			if err != nil {
+				return nil, err
+			}
 			for gid := startGlyphID; gid <= endGlyphID; gid++ {
 				table[glyph.ID(gid)] = true
 				pos++
diff --git a/opentype/gdef/gdef.go b/opentype/gdef/gdef.go
index cf38b63..d4dfee0 100644
--- a/opentype/gdef/gdef.go
+++ b/opentype/gdef/gdef.go
@@ -50,6 +50,7 @@ func (table *Table) IsMark(gid glyph.ID) bool {
 // Read reads the GDEF table.
 func Read(r parser.ReadSeekSizer) (*Table, error) {
 	p := parser.New(r)
+	p.LimitWork()
 	buf, err := p.ReadBytes(12)
 	if err != nil {
 		return nil, err
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 825f29e..536bf86 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -163,6 +163,11 @@ func readGpos1_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 	coverageOffset := int64(buf[0])<<8 | int64(buf[1])
 	valueFormat := uint16(buf[2])<<8 | uint16(buf[3])
 	valueCount := int(buf[4])<<8 | int(buf[5])
+	// If the value format is zero, there is no data to read.
+	err = p.Charge(2 * valueCount)
+	if err != nil {
+		return nil, err
+	}
 	valueRecords := make([]*GposValueRecord, valueCount)
 	for i := range valueRecords {
 		valueRecords[i], err = readValueRecord(p, valueFormat)
@@ -524,6 +529,11 @@ func readGpos2_2(p *parser.Parser, subtablePos int64) (Subtable, error) {
 			Reason:    "GPOS2.1 table too large",
 		}
 	}
+	// If the value formats are zero, there is no data to read.
+	err = p.Charge(2 * (int(class1Count) + numRecords))
+	if err != nil {
+		return nil, err
+	}
 	records := make([]*PairAdjust, numRecords)
 	for i := 0; i < numRecords; i++ {
 		first, err := readValueRecord(p, valueFormat1)
diff --git a/opentype/gtab/gtab.go b/opentype/gtab/gtab.go
index 968ef24..4dcd931 100644
--- a/opentype/gtab/gtab.go
+++ b/opentype/gtab/gtab.go
@@ -86,6 +86,7 @@ func Read(r parser.ReadSeekSizer, tp Type) (*Info, error) {
 
 func readGtab(r parser.ReadSeekSizer, tp Type, sr subtableReader) (*Info, error) {
 	p := parser.New(r)
+	p.LimitWork()
 
 	var header struct {
 		MajorVersion      uint16
diff --git a/parser/error.go b/parser/error.go
index ac7b756..f06ced8 100644
--- a/parser/error.go
+++ b/parser/error.go
@@ -42,3 +42,8 @@ func IsUnsupported(err error) bool {
 	_, ok := err.(*NotSupportedError)
 	return ok
 }
+
+var errTooMuchWork = &InvalidFontError{
+	SubSystem: "sfnt/parser",
+	Reason:    "data structure too large",
+}
diff --git a/parser/parser.go b/parser/parser.go
index 3b0d6f2..6e712ad 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,9 @@ type Parser struct {
 	from      int64
 	pos, used int
 	lastRead  int
+
+	hasBudget bool
+	budget    int64
 }
 
 // ReadSeekSizer describes the requirements for a reader that can be used
@@ -56,6 +59,29 @@ func (p *Parser) Size() int64 {
 	return p.r.Size()
 }
 
+// LimitWork limits the total amount of work for the parser to an amount
+// proportional to the size of the input.  This protects against malicious
+// files where many different parts of the data structure share the same bytes
+// of the file.  Once the limit is exceeded, all reads return an error.
+func (p *Parser) LimitWork() {
+	p.hasBudget = true
+	p.budget = 32<<20 + 16*p.Size()
+}
+
+// Charge counts n additional bytes towards the limit set by LimitWork.
+// This must be used where a small amount of input expands to a large amount
+// of data.
+func (p *Parser) Charge(n int) error {
+	if !p.hasBudget {
+		return nil
+	}
+	p.budget -= int64(n)
+	if p.budget < 0 {
+		return errTooMuchWork
+	}
+	return nil
+}
+
 // Pos returns the current reading position within the current region.
 func (p *Parser) Pos() int64 {
 	return p.from + int64(p.pos)
@@ -170,6 +196,9 @@ func (p *Parser) ReadBytes(n int) ([]byte, error) {
 	} else if n > bufferSize {
 		panic("buffer size exceeded")
 	}
+	if err := p.Charge(n); err != nil {
+		return nil, err
+	}
 
 	for p.pos+n > p.used {
 		if len(p.buf) == 0 {
-- 
2.43.0


From c8dc98ada30b8c4c3f76f81561e0f7bd8aff75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:01 +0000
Subject: [PATCH 67/76] fix: limit the work for CFF fonts where data is shared

---
 cff/dict.go     |  2 +-
 cff/read.go     |  4 ++++
 cff/t2decode.go | 11 +++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/cff/dict.go b/cff/dict.go
index 248fdf8..723b169 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -542,7 +542,7 @@ func (d cffDict) readPrivate(p *parser.Parser, strings *cffStrings) (*privateInf
 	// TODO(voss): handle the font matrix
 
 	pdSize, pdOffs, ok := d.getPair(opPrivate)
-	if !ok || pdOffs < 4 || pdSize < 0 {
+	if !ok || pdOffs < 4 || pdSize < 0 || int64(pdSize) > p.Size() {
 		return nil, errors.New("cff: missing Private DICT")
 	}
 
diff --git a/cff/read.go b/cff/read.go
index 53da4bf..ee7e519 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -35,6 +35,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 	}
 
 	p := parser.New(r)
+	p.LimitWork()
 
 	// section 0: header
 	x, err := p.ReadUint32()
@@ -137,6 +138,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 
 	ROS, isCIDKeyed := topDict[opROS]
 	var decoders []*decodeInfo
+	maxOps := 4<<20 + 16*p.Size()
 	if isCIDKeyed {
 		if len(ROS) != 3 {
 			return nil, invalidSince("wrong number of ROS values")
@@ -187,6 +189,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 				gsubr:        gsubrs,
 				defaultWidth: pInfo.defaultWidth,
 				nominalWidth: pInfo.nominalWidth,
+				maxOps:       &maxOps,
 			})
 		}
 
@@ -271,6 +274,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 			gsubr:        gsubrs,
 			defaultWidth: pInfo.defaultWidth,
 			nominalWidth: pInfo.nominalWidth,
+			maxOps:       &maxOps,
 		})
 	}
 
diff --git a/cff/t2decode.go b/cff/t2decode.go
index 846dcff..52e1d9c 100644
--- a/cff/t2decode.go
+++ b/cff/t2decode.go
@@ -27,6 +27,11 @@ type decodeInfo struct {
 	gsubr        cffIndex
 	defaultWidth float64
 	nominalWidth float64
+
+	// If maxOps is non-nil, *maxOps is the number of operands and operators
+	// which can still be processed.  This protects against fonts where
+	// nested subroutines expand to huge amounts of data.
+	maxOps *int64
 }
 
 type ccStage int
@@ -116,6 +121,12 @@ func (info *decodeInfo) decodeCharString(code []byte) (*Glyph, error) {
 			if len(stack) > maxStack {
 				return nil, errStackOverflow
 			}
+			if info.maxOps != nil {
+				*info.maxOps--
+				if *info.maxOps < 0 {
+					return nil, invalidSince("charstrings too long")
+				}
+			}
 
 			op := t2op(code[0])
 
-- 
2.43.0


From bab23c953b31461835127c953f58cef3ee15f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:13 +0000
Subject: [PATCH 68/76] fix: limit the total length of strings in name tables

---
 name/name.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/name/name.go b/name/name.go
index d477898..11bc897 100644
--- a/name/name.go
+++ b/name/name.go
@@ -81,6 +81,10 @@ func Decode(data []byte) (*Info, error) {
 	// in a "name" table.
 	b := newNameBuilder()
 
+	// Limit the total amount of work, in case many records share the same
+	// string.
+	maxChars := 4<<20 + 16*len(data)
+
 recLoop:
 	for i := 0; i < numRec; i++ {
 		pos := recBase + i*12
@@ -107,6 +111,10 @@ recLoop:
 			return nil, errMalformedNames
 		}
 		nameBytes := data[storageOffset+nameOffset : storageOffset+nameOffset+nameLen]
+		maxChars -= nameLen
+		if maxChars < 0 {
+			return nil, errMalformedNames
+		}
 
 		// We ignore encodings we don't understand.
 		var val string
-- 
2.43.0


From ce96e4722b9492594e016f20641f2d1317901691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:24 +0000
Subject: [PATCH 69/76] fix: reduce the amount of work allowed for shared data

---
 cff/read.go           | 2 +-
 opentype/gtab/gpos.go | 5 +++++
 parser/parser.go      | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cff/read.go b/cff/read.go
index ee7e519..f88c4e5 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -138,7 +138,7 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 
 	ROS, isCIDKeyed := topDict[opROS]
 	var decoders []*decodeInfo
-	maxOps := 4<<20 + 16*p.Size()
+	maxOps := 1<<20 + 16*p.Size()
 	if isCIDKeyed {
 		if len(ROS) != 3 {
 			return nil, invalidSince("wrong number of ROS values")
diff --git a/opentype/gtab/gpos.go b/opentype/gtab/gpos.go
index 536bf86..e823b48 100644
--- a/opentype/gtab/gpos.go
+++ b/opentype/gtab/gpos.go
@@ -326,6 +326,11 @@ func readGpos2_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Each pair uses much more memory than space in the file.
+		err = p.Charge(12 * int(pairValueCount))
+		if err != nil {
+			return nil, err
+		}
 		adj := make(map[glyph.ID]*PairAdjust, pairValueCount)
 		for j := 0; j < int(pairValueCount); j++ {
 			secondGlyph, err := p.ReadUint16()
diff --git a/parser/parser.go b/parser/parser.go
index 6e712ad..8d1204a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -65,7 +65,7 @@ func (p *Parser) Size() int64 {
 // of the file.  Once the limit is exceeded, all reads return an error.
 func (p *Parser) LimitWork() {
 	p.hasBudget = true
-	p.budget = 32<<20 + 16*p.Size()
+	p.budget = 16<<20 + 16*p.Size()
 }
 
 // Charge counts n additional bytes towards the limit set by LimitWork.
-- 
2.43.0


From a56884a3c8244bba715d2140a76f84a05476e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:17 +0000
Subject: [PATCH 70/76] fix: limit the number of components in mark-to-ligature
 tables

---
 opentype/gtab/gpos5.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentype/gtab/gpos5.go b/opentype/gtab/gpos5.go
index cc97b3d..0acb9f4 100644
--- a/opentype/gtab/gpos5.go
+++ b/opentype/gtab/gpos5.go
@@ -112,6 +112,11 @@ func readGpos5_1(p *parser.Parser, subtablePos int64) (Subtable, error) {
 				Reason:    "GPOS5.1 table too large",
 			}
 		}
+		// If there are no mark classes, there is no data to read.
+		err = p.Charge(2 * int(componentCount))
+		if err != nil {
+			return nil, err
+		}
 		anchorOffsets := make([]uint16, numOffsets)
 		for j := range anchorOffsets {
 			anchorOffsets[j], err = p.ReadUint16()
-- 
2.43.0


From ab33ebc275af300a29b23f9bfca640487d7b0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:31 +0000
Subject: [PATCH 71/76] fix: written fonts must not depend on the current date
 or time zone

---
 write.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/write.go b/write.go
index 11adc5f..a37239c 100644
--- a/write.go
+++ b/write.go
@@ -21,7 +21,6 @@ import (
 	"errors"
 	"io"
 	"math"
-	"time"
 
 	"seehuhn.de/go/postscript/funit"
 
@@ -278,12 +277,13 @@ func (f *Font) makeName() ([]byte, error) {
 	if day.IsZero() {
 		day = f.CreationTime
 	}
-	if day.IsZero() {
-		day = time.Now()
-	}
-	dayString := day.Format("2006-01-02")
 
 	fullName := f.FullName()
+	identifier := fullName + "; " + f.Version.String()
+	if !day.IsZero() {
+		// The output must not depend on the local time zone.
+		identifier += "; " + day.UTC().Format("2006-01-02")
+	}
 	nameTable := &name.Table{
 		Family:         f.FamilyName,
 		Subfamily:      f.Subfamily(),
@@ -292,7 +292,7 @@ func (f *Font) makeName() ([]byte, error) {
 		Trademark:      f.Trademark,
 		License:        f.License,
 		LicenseURL:     f.LicenseURL,
-		Identifier:     fullName + "; " + f.Version.String() + "; " + dayString,
+		Identifier:     identifier,
 		FullName:       fullName,
 		Version:        "Version " + f.Version.String(),
 		PostScriptName: f.PostScriptName(),
-- 
2.43.0


From 24b42d7efca26b1e0fda4461b89ee3ac04548b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:36 +0000
Subject: [PATCH 72/76] fix: accept readers which return io.EOF together with
 the end of the file

---
 header/tables.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/header/tables.go b/header/tables.go
index 2a97679..3a03816 100644
--- a/header/tables.go
+++ b/header/tables.go
@@ -89,8 +89,8 @@ func Read(r io.ReaderAt) (*Info, error) {
 	}
 	var coverage []alloc
 	for i := 0; i < numTables; i++ {
-		_, err := r.ReadAt(buf[:16], int64(12+i*16))
-		if err != nil {
+		n, err := r.ReadAt(buf[:16], int64(12+i*16))
+		if n < 16 && err != nil {
 			return nil, err
 		}
 		for i := 0; i < 4; i++ {
@@ -148,8 +148,10 @@ func Read(r io.ReaderAt) (*Info, error) {
 			}
 		}
 	}
-	_, err = r.ReadAt(buf[:1], int64(coverage[len(coverage)-1].End)-1)
-	if err == io.EOF {
+	n, err := r.ReadAt(buf[:1], int64(coverage[len(coverage)-1].End)-1)
+	if n == 1 {
+		// ReadAt may return io.EOF together with the last byte of the file
+	} else if err == io.EOF {
 		return nil, &parser.InvalidFontError{
 			SubSystem: "sfnt/header",
 			Reason:    "table extends beyond EOF",
-- 
2.43.0


From 7feea0711a951e0e80d269a08469eab981ada125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:46 +0000
Subject: [PATCH 73/76] fix: keep data which a reader returns together with an
 error

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8d1204a..4c699e9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -210,6 +210,7 @@ func (p *Parser) ReadBytes(n int) ([]byte, error) {
 		p.used = k
 
 		l, err := p.r.Read(p.buf[p.used:])
+		p.used += l
 		if err == io.EOF {
 			if l > 0 {
 				err = nil
@@ -220,7 +221,6 @@ func (p *Parser) ReadBytes(n int) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		p.used += l
 	}
 
 	res := p.buf[p.pos : p.pos+n]
-- 
2.43.0


From 7120447860b6c62a5fc3394000401797209b7cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:33 +0000
Subject: [PATCH 74/76] fix: cff.Font.WidthsPDF must use the complete font
 matrices

---
 cff/font.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cff/font.go b/cff/font.go
index 8eb8be0..a833ca2 100644
--- a/cff/font.go
+++ b/cff/font.go
@@ -76,9 +76,8 @@ func (f *Font) Widths() []float64 {
 // in PDF glyph space units (1/1000th of a text space unit).
 func (f *Font) WidthsPDF() []float64 {
 	widths := make([]float64, f.NumGlyphs())
-	q := f.FontMatrix[0] * 1000
-	for gid, glyph := range f.Glyphs {
-		widths[gid] = glyph.Width * q
+	for gid := range f.Glyphs {
+		widths[gid] = f.GlyphWidthPDF(glyph.ID(gid))
 	}
 	return widths
 }
-- 
2.43.0


From 7d09f0bc9d83d44ef5b6d1bf9519e8db06242555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:54 +0000
Subject: [PATCH 75/76] fix: read integers in CFF DICTs which are stored as
 real numbers

---
 cff/dict.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cff/dict.go b/cff/dict.go
index 723b169..1208aae 100644
--- a/cff/dict.go
+++ b/cff/dict.go
@@ -333,11 +333,14 @@ func (d cffDict) getInt(op dictOp, defVal int32) int32 {
 	if len(d[op]) != 1 {
 		return defVal
 	}
-	x, ok := d[op][0].(int32)
-	if !ok {
+	switch x := d[op][0].(type) {
+	case int32:
+		return x
+	case float64:
+		return int32(math.Round(clamp(x, math.MinInt32, math.MaxInt32)))
+	default:
 		return defVal
 	}
-	return x
 }
 
 func (d cffDict) getFloat(op dictOp, defVal float64) float64 {
-- 
2.43.0


From 751065cf26d33d4bee476f81bca96d41def04eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:27 +0000
Subject: [PATCH 76/76] fix: read the supplement of a CFF font which is stored
 as a real number

---
 cff/read.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cff/read.go b/cff/read.go
index f88c4e5..4ce3fd1 100644
--- a/cff/read.go
+++ b/cff/read.go
@@ -154,9 +154,12 @@ func Read(r parser.ReadSeekSizer) (*Font, error) {
 		} else {
 			return nil, invalidSince("wrong type for Ordering")
 		}
-		if sup, ok := ROS[2].(int32); ok {
+		switch sup := ROS[2].(type) {
+		case int32:
 			ros.Supplement = sup
-		} else {
+		case float64:
+			ros.Supplement = int32(math.Round(clamp(sup, math.MinInt32, math.MaxInt32)))
+		default:
 			return nil, invalidSince("wrong type for Supplement")
 		}
 		cff.ROS = ros
-- 
2.43.0

