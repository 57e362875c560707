From 9aeec6a737fba380468e2341590d8f61d440778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:35 +0000
Subject: [PATCH 01/29] fix: mask the whole initial hash, not only its last
 byte

'&' binds tighter than '^', so the first token could exceed the hash table:
compressing any content whose first byte has bit 5 set (e.g. "abc") panicked.
---
 slide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slide.go b/slide.go
index dd65397..b18ecf5 100644
--- a/slide.go
+++ b/slide.go
@@ -262,7 +262,7 @@ func insertHash(token, pos uint) { /* associate position with token */
 }
 
 func initHash(pos uint) uint {
-	return uint((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])&uint16(hshsiz-1))
+	return uint(((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])) & uint16(hshsiz-1))
 }
 
 func nextHash(token, pos uint) uint {
-- 
2.43.0


From f885778a8571d9d970a98de292ec931ab33d465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 02/29] fix: allocate the encoder window for the largest
 dictionary

The window was sized for the first method used in the process, so compressing
with lh6 or lh7 after lh1 or lh5 panicked (index out of range).
---
 append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 56372c7..8b0016f 100644
--- a/append.go
+++ b/append.go
@@ -90,7 +90,7 @@ func encodeAlloc(method int) (int, error) {
 
 	hash = make([]Hash, hshsiz)
 	prevs = make([]uint, maxDicsiz)
-	text = make([]byte, txtsiz+1)
+	text = make([]byte, maxDicsiz*2+int(Maxmatch)+1)
 
 	return method, nil
 }
-- 
2.43.0


From afc39d80f6e9cbc4cfce7d89db7094f3778b9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:04 +0000
Subject: [PATCH 03/29] fix: let the decoder's window position reach 65536

The position was 16 bits wide and wrapped to 0 before it could equal the lh7
dictionary size, so the window was never flushed: lh7 members of 64 KB or more
lost every full window of output.
---
 larc.go  | 4 ++--
 lha.go   | 2 +-
 pm.go    | 2 +-
 slide.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/larc.go b/larc.go
index ddbd739..bce6253 100644
--- a/larc.go
+++ b/larc.go
@@ -30,7 +30,7 @@ func (l *Lha) decodeCLzs( /*void*/ ) uint16 {
 /* lzs */
 
 func (l *Lha) decodePLzs( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
 }
 
 /* ------------------------------------------------------------------------ */
@@ -78,7 +78,7 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic5)) & 0xfff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic5)) & 0xfff
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/lha.go b/lha.go
index a387124..80f2061 100644
--- a/lha.go
+++ b/lha.go
@@ -60,7 +60,7 @@ type Lha struct {
 	HeaderLevel                    int
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
-	loc                            uint16
+	loc                            uint
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
diff --git a/pm.go b/pm.go
index 880211f..a9f9a46 100644
--- a/pm.go
+++ b/pm.go
@@ -61,7 +61,7 @@ var (
 
 func (l *Lha) decodeCPm2() uint16 {
 	/* various admin: */
-	for lastupdate != uint(l.loc) {
+	for lastupdate != l.loc {
 		histUpdate(dtext[lastupdate])
 		lastupdate = (lastupdate + 1) & dicsiz1
 	}
diff --git a/slide.go b/slide.go
index b18ecf5..285f6d8 100644
--- a/slide.go
+++ b/slide.go
@@ -165,7 +165,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 			match.len = int(c - adjust)
 			match.off = uint(l.decodeMethodP(inter.method)) + 1
-			matchpos = (uint(l.loc) - match.off) & dicsiz1
+			matchpos = (l.loc - match.off) & dicsiz1
 			if l.DumpLzss {
 				fmt.Printf("%d <%d %d>\n",
 					decodeCount, match.len, decodeCount-int(match.off))
-- 
2.43.0


From 378e942c4e3d5fe1151b16f499055b726e248efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:05 +0000
Subject: [PATCH 04/29] fix: encode lh1 members with the lh1 coder

The coder was selected one method off, so lh1 members were written with the
block-Huffman coder (wrong stream, or a panic) and could not be decompressed.
---
 slide.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/slide.go b/slide.go
index 285f6d8..cc1c0aa 100644
--- a/slide.go
+++ b/slide.go
@@ -195,9 +195,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 func (l *Lha) encodeStart(method int) {
 	switch method {
 	case 0:
-		l.encodeStartFix()
-	case 1:
 		l.encodeStartSt1()
+	case 1: /* lh1 */
+		l.encodeStartFix()
 	case 2:
 		l.encodeStartSt1()
 	case 3:
@@ -216,9 +216,9 @@ func (l *Lha) encodeStart(method int) {
 func (l *Lha) encodeEnd(method int) {
 	switch method {
 	case 0:
-		l.encodeEndDyn()
-	case 1:
 		l.encodeEndSt1()
+	case 1: /* lh1 */
+		l.encodeEndDyn()
 	case 2:
 		l.encodeEndSt1()
 	case 3:
@@ -237,9 +237,9 @@ func (l *Lha) encodeEnd(method int) {
 func (l *Lha) encodeOuput(method int, code, pos uint16) {
 	switch method {
 	case 0:
-		l.outputDyn(int(code), int(pos))
-	case 1:
 		l.outputSt1(code, pos)
+	case 1: /* lh1 */
+		l.outputDyn(int(code), int(pos))
 	case 2:
 		l.outputSt1(code, pos)
 	case 3:
-- 
2.43.0


From f184d3c18fcb0c922f740394618271576829640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:50 +0000
Subject: [PATCH 05/29] fix: write lh1 codes longer than 16 bits from their
 leftmost bits

The tail of a long adaptive code was taken from the right end of the bit
string; a rare symbol after a strongly skewed history (code length 17+) made
the member undecodable.
---
 dhuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhuf.go b/dhuf.go
index 06069c2..a997746 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -299,7 +299,7 @@ func (l *Lha) encodeCDyn(c uint) {
 		_ = l.putcode(byte(cnt), uint16(bits>>16))
 	} else {
 		_ = l.putcode(16, uint16(bits>>16))
-		_ = l.putbits(byte(cnt-16), uint16(bits))
+		_ = l.putcode(byte(cnt-16), uint16(bits))
 	}
 	if d >= 0 {
 		_ = l.putbits(8, uint16(d))
-- 
2.43.0


From 7cb4c3ca96b8d80a2919b839eb982174871d4d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:51 +0000
Subject: [PATCH 06/29] fix: use the right escape symbol in the adaptive coder

The condition choosing the symbol that is followed by extra length bits was
inverted (lh1 wrote and expected 8 extra bits after a length-60 match, lh2
never read them), and the value was shared with the lh3 alphabet size, which
lh1/lh2 therefore overwrote.
---
 dhuf.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dhuf.go b/dhuf.go
index a997746..860ad4f 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -18,6 +18,7 @@ var (
 	dicbit      uint16
 	maxmatch    uint16
 	decodeCount int
+	n1Dyn       int /* symbol followed by extra length bits (lh2) */
 )
 
 const (
@@ -33,9 +34,9 @@ const (
 
 func (l *Lha) startCDyn( /* void */ ) {
 	var i, j, f int
-	n1 = 512
-	if nMax >= uint(256+maxmatch-uint16(threshold)+1) {
-		n1 = int(nMax) - 1
+	n1Dyn = 512
+	if nMax < uint(256+maxmatch-uint16(threshold)+1) {
+		n1Dyn = int(nMax) - 1
 	}
 
 	for i = 0; i < treesizeC; i++ {
@@ -277,9 +278,9 @@ func (l *Lha) encodeCDyn(c uint) {
 	var bits uint
 	var p, d, cnt int
 
-	d = int(c) - n1
+	d = int(c) - n1Dyn
 	if d >= 0 {
-		c = uint(n1)
+		c = uint(n1Dyn)
 	}
 	bits = 0
 	cnt = int(bits)
@@ -334,7 +335,7 @@ func (l *Lha) decodeCDyn( /* void */ ) uint16 {
 	_ = l.fillbuf(byte(cnt))
 	c = ^c
 	updateC(c)
-	if c == n1 {
+	if c == n1Dyn {
 		c += int(l.getbits(8))
 	}
 	return uint16(c)
-- 
2.43.0


From d1e1cb30733cfad921d58c88ffd597a545f1cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:52 +0000
Subject: [PATCH 07/29] fix: set the position alphabet for 4 KB dictionaries
 (lh4)

Go does not fall through to the lh5 case, so decoding lh4 used whatever
position alphabet the previous member left behind.
---
 huf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/huf.go b/huf.go
index 9b0bcd1..4d7a657 100644
--- a/huf.go
+++ b/huf.go
@@ -283,8 +283,7 @@ func (l *Lha) encodeStartSt1( /* void */ ) {
 	var i int
 
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
@@ -521,8 +520,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 /* lh4, 5, 6, 7 */
 func (l *Lha) decodeStartSt1( /* void */ ) {
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
-- 
2.43.0


From ba2d000bbcdd438b160fe326477bc92c4dbb11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:12 +0000
Subject: [PATCH 08/29] fix: walk the lh3 trees by the top bit and with the lh3
 position alphabet

The tree walks of decodeCSt0/decodePSt0 tested the sign of an int that
holds 16 bits, so they always went left; the position table was built for
17 symbols instead of 128; and a block left unfinished by an earlier
member was carried into the next one.
---
 shuf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shuf.go b/shuf.go
index e70a516..24efc50 100644
--- a/shuf.go
+++ b/shuf.go
@@ -22,6 +22,7 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	_ = l.initGetbits()
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
+	blocksize = 0
 }
 
 /* ------------------------------------------------------------------------ */
@@ -144,7 +145,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np), &ptLen, 8, &ptTable)
+		_ = makeTable(int16(np), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
@@ -154,7 +155,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(12)
 		i = int(l.bitbuf)
 		for {
-			if i < 0 {
+			if i&0x8000 != 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
@@ -186,7 +187,7 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(8)
 		i = int(l.bitbuf)
 		for {
-			if i < 0 {
+			if i&0x8000 != 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
-- 
2.43.0


From a324b23cc8d71eb3bfee4a4869a39f4400a04641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 09/29] fix: follow the left branch of the node itself in pm2
 trees

---
 pmtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmtree.go b/pmtree.go
index 9c76653..557d88f 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -93,11 +93,11 @@ func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
 	for i < 0x80 {
-		i = int((*t).rightarr[i])
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
+		} else {
+			i = int((*t).rightarr[i])
 		}
-
 	}
 	return i & 0x7F
 }
-- 
2.43.0


From 876d302337348ff95951f2f06ae05a938395ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 10/29] fix: copy exactly the requested bytes of a stored
 member and sum them

copyfile ignored its size argument, wrote whole 2048-byte buffers however
few bytes were read, never computed the CRC and wrote the data out even
when only verifying.
---
 extract.go |  6 +++++-
 util.go    | 23 +++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/extract.go b/extract.go
index 1cf021a..ace6b0f 100644
--- a/extract.go
+++ b/extract.go
@@ -83,7 +83,11 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 			fmt.Printf("no use slide\n")
 		}
 
-		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
+		out := &outfp
+		if VerifyMode {
+			out = nil
+		}
+		*read_sizep, _ = copyfile(&infp, out, original_size, 2, &crc)
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/util.go b/util.go
index 9c2ee72..4d399c7 100644
--- a/util.go
+++ b/util.go
@@ -31,7 +31,7 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	if !TextMode {
 		text_flg = 0
 	}
-	if *crcp != 0 {
+	if crcp != nil {
 		initializeCrc(crcp)
 	}
 	if text_flg != 0 {
@@ -40,26 +40,25 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	for size > 0 {
 		/* read */
 		var err error
-		xsize, err = (*f1).Read(buf)
-
-		if xsize == 0 {
-			break
-		}
-		if err != nil && err != io.EOF {
-			return 0, fmt.Errorf("file read error :%v", err.Error())
+		xsize, err = io.ReadFull(*f1, buf[:min(size, buffersize)])
+		if err != nil {
+			return rsize, fmt.Errorf("file read error :%v", err.Error())
 		}
 
 		/* write */
-		_, err = (*f2).Write(buf)
-		if err != nil {
-			return 0, fmt.Errorf("file write error :%v", err.Error())
+		if f2 != nil {
+			_, err = (*f2).Write(buf[:xsize])
+			if err != nil {
+				return rsize, fmt.Errorf("file write error :%v", err.Error())
+			}
 		}
 
 		/* calculate crc */
-		if *crcp != 0 {
+		if crcp != nil {
 			*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
 		}
 		rsize += xsize
+		size -= xsize
 	}
 	return rsize, nil
 }
-- 
2.43.0


From 3f3ca12ba9ecea131904a90b6b924d226bb9e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:59 +0000
Subject: [PATCH 11/29] fix: report damaged and truncated compressed data
 instead of guessing

Read errors, malformed code tables and write errors met by the decoders
were dropped, so a damaged member was extracted as garbage, looped or
panicked. The first error is now remembered and returned, table sizes are
checked, the lz5 reader honours the packed size, and a file extracted to
disk gets its CRC checked like the other paths.
---
 bitio.go   | 29 +++++++++++++++++++++--------
 dhuf.go    |  2 +-
 extract.go |  2 +-
 huf.go     | 23 ++++++++++++++++++++---
 larc.go    | 43 ++++++++++++++++++++++++-------------------
 lha.go     |  2 ++
 lhext.go   | 32 ++++++++++++++++++++------------
 maketbl.go | 10 +++++-----
 pm.go      |  7 +++++--
 pmtree.go  |  4 ++--
 shuf.go    | 14 ++++++++++++--
 slide.go   | 22 +++++++++++++---------
 12 files changed, 126 insertions(+), 64 deletions(-)

diff --git a/bitio.go b/bitio.go
index caa3a96..42d193d 100644
--- a/bitio.go
+++ b/bitio.go
@@ -2,7 +2,7 @@ package lha
 
 import (
 	"fmt"
-	"os"
+	"io"
 )
 
 /* ------------------------------------------------------------------------ */
@@ -15,6 +15,16 @@ import (
 /*              Separated from crcio.c          2002.10.26  Koji Arai       */
 /* ------------------------------------------------------------------------ */
 
+const maxPadsize = 16
+
+/* remember the first error met while (de)coding a member */
+func (l *Lha) setCodeErr(err error) error {
+	if l.codeErr == nil {
+		l.codeErr = err
+	}
+	return err
+}
+
 func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits */
 
 	for n > l.bitcount {
@@ -23,12 +33,17 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 		if l.compsize != 0 {
 			l.compsize--
 			c := make([]byte, 1)
-			_, err := l.infile.Read(c)
+			_, err := io.ReadFull(l.infile, c)
 			if err != nil {
-				return fmt.Errorf("cannot read stream")
+				return l.setCodeErr(fmt.Errorf("cannot read stream :%v", err))
 			}
 			l.subbitbuf = c[0]
 		} else {
+			/* the bits looked ahead are zeros; no member needs more of them */
+			l.padsize++
+			if l.padsize > maxPadsize {
+				return l.setCodeErr(fmt.Errorf("unexpected end of the compressed data"))
+			}
 			l.subbitbuf = 0
 		}
 		l.bitcount = charBit
@@ -42,10 +57,7 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 func (l *Lha) getbits(n byte) uint16 {
 	var x uint16 = l.bitbuf >> (2*charBit - n)
 
-	err := l.fillbuf(n)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "fillbuf error :%v\n", err.Error())
-	}
+	_ = l.fillbuf(n)
 	return x
 }
 
@@ -62,7 +74,7 @@ func (l *Lha) putcode(n byte, x uint16) error { /* Write leftmost n bits of x */
 			b = append(b, l.subbitbuf)
 			_, err := l.outfile.Write(b)
 			if err != nil {
-				return fmt.Errorf("write error in bitio.c(putcode)")
+				return l.setCodeErr(fmt.Errorf("write error in bitio.c(putcode) :%v", err))
 			}
 			l.compsize++
 		} else {
@@ -85,6 +97,7 @@ func (l *Lha) initGetbits( /* void */ ) error {
 	l.bitbuf = 0
 	l.subbitbuf = 0
 	l.bitcount = 0
+	l.padsize = 0
 	return l.fillbuf(2 * charBit)
 }
 
diff --git a/dhuf.go b/dhuf.go
index 860ad4f..9424052 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -39,7 +39,7 @@ func (l *Lha) startCDyn( /* void */ ) {
 		n1Dyn = int(nMax) - 1
 	}
 
-	for i = 0; i < treesizeC; i++ {
+	for i = 0; i < treesize; i++ {
 		stock[i] = int16(i)
 		block[i] = 0
 	}
diff --git a/extract.go b/extract.go
index ace6b0f..24c6fc2 100644
--- a/extract.go
+++ b/extract.go
@@ -87,7 +87,7 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 		if VerifyMode {
 			out = nil
 		}
-		*read_sizep, _ = copyfile(&infp, out, original_size, 2, &crc)
+		*read_sizep, l.codeErr = copyfile(&infp, out, original_size, 2, &crc)
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/huf.go b/huf.go
index 4d7a657..c58da47 100644
--- a/huf.go
+++ b/huf.go
@@ -347,6 +347,10 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 	n = int(l.getbits(byte(nbit)))
 	if n == 0 {
 		c = int(l.getbits(byte(nbit)))
+		if c >= int(nn) {
+			_ = l.setCodeErr(fmt.Errorf("bad table"))
+			c = 0
+		}
 		for i = 0; i < int(nn); i++ {
 			ptLen[i] = 0
 		}
@@ -384,7 +388,7 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 			ptLen[i] = 0
 			i++
 		}
-		_ = makeTable(nn, &ptLen, 8, &ptTable)
+		_ = l.setCodeErr(makeTable(nn, &ptLen, 8, &ptTable))
 	}
 }
 
@@ -395,6 +399,10 @@ func (l *Lha) readCLen( /* void */ ) {
 	n = int16(l.getbits(cbit))
 	if n == 0 {
 		c = int16(l.getbits(cbit))
+		if c >= int16(Nc) {
+			_ = l.setCodeErr(fmt.Errorf("bad table"))
+			c = 0
+		}
 		for i = 0; i < int16(Nc); i++ {
 			cLen[i] = 0
 		}
@@ -432,6 +440,10 @@ func (l *Lha) readCLen( /* void */ ) {
 						c = int16(l.getbits(cbit)) + 20
 					}
 				}
+				if i+c > int16(Nc) {
+					_ = l.setCodeErr(fmt.Errorf("bad table"))
+					return
+				}
 				c--
 				for c >= 0 {
 					cLen[i] = 0
@@ -447,7 +459,7 @@ func (l *Lha) readCLen( /* void */ ) {
 			cLen[i] = 0
 			i++
 		}
-		_ = makeTable(int16(Nc), &cLen, 12, &cTable)
+		_ = l.setCodeErr(makeTable(int16(Nc), &cLen, 12, &cTable))
 	}
 }
 
@@ -459,8 +471,13 @@ func (l *Lha) decodeCSt1( /*void*/ ) uint16 {
 	if blocksize == 0 {
 		blocksize = l.getbits(16)
 		l.readPtLen(int16(Nt), int16(tbit), 3)
-		l.readCLen()
+		if l.codeErr == nil {
+			l.readCLen()
+		}
 		l.readPtLen(int16(np), int16(pbit), -1)
+		if l.codeErr != nil {
+			return 0
+		}
 	}
 	blocksize--
 	j = cTable[l.peekbits(12)]
diff --git a/larc.go b/larc.go
index bce6253..b5cc27d 100644
--- a/larc.go
+++ b/larc.go
@@ -1,6 +1,9 @@
 package lha
 
-import "io"
+import (
+	"fmt"
+	"io"
+)
 
 /* ------------------------------------------------------------------------ */
 /* LHa for UNIX                                                             */
@@ -40,33 +43,35 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 	initCodeCache()
 }
 
+/* ------------------------------------------------------------------------ */
+/* lz5 */
+func (l *Lha) getcLz5( /*void*/ ) int { /* read one byte of the member */
+	if l.compsize == 0 {
+		_ = l.setCodeErr(fmt.Errorf("unexpected end of the compressed data"))
+		return 0
+	}
+	b := make([]byte, 1)
+	if _, err := io.ReadFull(l.infile, b); err != nil {
+		_ = l.setCodeErr(fmt.Errorf("cannot read stream :%v", err))
+		return 0
+	}
+	l.compsize--
+	return int(b[0])
+}
+
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	var c int
-	b := make([]byte, 1)
 	if l.flagcnt == 0 {
 		l.flagcnt = 8
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		l.mFlag = int(b[0])
+		l.mFlag = l.getcLz5()
 	}
 	l.flagcnt--
-	_, _ = l.infile.Read(b)
-	c = int(b[0])
+	c = l.getcLz5()
 	if (l.mFlag & 1) == 0 {
 		l.matchpos = c
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		c = int(b[0]) //@TODO add EOF handler
+		c = l.getcLz5()
 		l.matchpos += (c & 0xf0) << 4
 		c &= 0x0f
 		c += 0x100
@@ -104,7 +109,7 @@ func (l *Lha) decodeStartLz5( /*void*/ ) {
 	}
 
 	for j := 0; j < (128 - 18); j++ {
-		dtext[256*13+512+128+18] = ' '
+		dtext[256*13+512+128+18+j] = ' '
 	}
 
 	//memset(&dtext[256*13+512+18], 0, 128)
diff --git a/lha.go b/lha.go
index 80f2061..79e8694 100644
--- a/lha.go
+++ b/lha.go
@@ -36,6 +36,8 @@ type Lha struct {
 	outfile                        io.Writer
 	unpackable                     bool
 	compsize                       int
+	padsize                        int   /* bytes read past the end of the compressed data */
+	codeErr                        error /* first error met while (de)coding a member */
 	origsize                       int
 	bitbuf                         uint16
 	skipFlg                        bool /* FALSE..No Skip , TRUE..Skip */
diff --git a/lhext.go b/lhext.go
index 97ac92d..94abce4 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1413,6 +1413,9 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			method,
 			&readSize))
 
+		if l.codeErr != nil {
+			return readSize, outputData.Bytes(), fmt.Errorf("cannot extract \"%s\" :%v", hdr.Name, l.codeErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", name)
 		}
@@ -1526,6 +1529,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				&readSize))
 			Quiet = saveQuiet
 			l.Verbose = saveVerbose
+			if l.codeErr != nil {
+				return readSize, fmt.Errorf("cannot extract \"%s\" :%v", name, l.codeErr)
+			}
 		} else {
 			if !l.skipFlg {
 
@@ -1552,19 +1558,21 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			}
 			var err error
 			fp, err = openWithMakePath(string(name[:]))
-			if err == nil {
-				crc = uint(l.DecodeLzhuf(
-					*afp,
-					fp,
-					hdr.OriginalSize,
-					hdr.PackedSize,
-					string(name[:]),
-					method,
-					&readSize))
-				fp.(*os.File).Close()
+			if err != nil {
+				return readSize, err
+			}
+			crc = uint(l.DecodeLzhuf(
+				*afp,
+				fp,
+				hdr.OriginalSize,
+				hdr.PackedSize,
+				string(name[:]),
+				method,
+				&readSize))
+			_ = l.setCodeErr(fp.(*os.File).Close())
+			if l.codeErr != nil {
+				return readSize, fmt.Errorf("cannot extract \"%s\" :%v", name, l.codeErr)
 			}
-
-			return readSize, nil
 		}
 
 		if hdr.HasCrc && crc != hdr.Crc {
diff --git a/maketbl.go b/maketbl.go
index e9d06bd..27dc5a5 100644
--- a/maketbl.go
+++ b/maketbl.go
@@ -15,7 +15,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 		count             [17]uint16 /* count of bitlen */
 		weight            [17]uint16 /* 0x10000ul >> bitlen */
 		start             [17]uint16 /* first code of bitlen */
-		total             uint16
+		total             uint
 		i, l              uint
 		j, k, m, n, avail int
 		pIndex            int
@@ -43,10 +43,10 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* calculate first code */
 	total = 0
 	for i = 1; i <= 16; i++ {
-		start[i] = total
-		total += weight[i] * count[i]
+		start[i] = uint16(total)
+		total += uint(weight[i]) * uint(count[i])
 	}
-	if (total&0xffff) != 0 || tablebits > 16 { /* 16 for weight below */
+	if (total != 0 && total != 0x10000) || tablebits > 16 { /* 16 for weight below */
 		return fmt.Errorf("make_table(): Bad table (case b)")
 	}
 
@@ -60,7 +60,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* initialize */
 	j = int(start[tablebits+1]) >> m
 	k = min(1<<tablebits, 4096)
-	if j != 0 {
+	if j != 0 || total == 0 {
 		for i = uint(j); i < uint(k); i++ {
 			(*table)[i] = 0
 		}
diff --git a/pm.go b/pm.go
index a9f9a46..1a92585 100644
--- a/pm.go
+++ b/pm.go
@@ -2,7 +2,6 @@ package lha
 
 import (
 	"fmt"
-	"os"
 )
 
 /***********************************************************
@@ -49,6 +48,7 @@ func (l *Lha) decodeStartPm2() {
 	histInit()
 	nextcount = 0
 	lastupdate = 0
+	treeSetsingle(&tree2, 0)
 	l.getbits(1) /* discard bit */
 }
 
@@ -103,9 +103,12 @@ func (l *Lha) decodeCPm2() uint16 {
 
 		}
 	}
+	if l.codeErr != nil {
+		return 0
+	}
 	gettree1 = byte(l.tree1Get()) /* value preserved for decode_p */
 	if gettree1 >= 29 {
-		fmt.Fprintf(os.Stderr, "Bad table")
+		_ = l.setCodeErr(fmt.Errorf("bad table"))
 		return 0
 	}
 
diff --git a/pmtree.go b/pmtree.go
index 557d88f..925b0f2 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -39,7 +39,7 @@ func (l *Lha) maketree1() {
 				table1[i] = 0
 			}
 		}
-		_ = treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:])
+		_ = l.setCodeErr(treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:]))
 	}
 }
 
@@ -81,7 +81,7 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 		treeSetsingle(&tree2, byte(index))
 	} else {
 		if count > 1 {
-			_ = treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:])
+			_ = l.setCodeErr(treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:]))
 		}
 	}
 	// Note: count == 0 is possible!
diff --git a/shuf.go b/shuf.go
index 24efc50..f730279 100644
--- a/shuf.go
+++ b/shuf.go
@@ -1,5 +1,7 @@
 package lha
 
+import "fmt"
+
 const (
 	Np_      = (8 * 1024 / 64)
 	Np2_     = (Np_*2 - 1)
@@ -83,6 +85,10 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 		i++
 		if i == 3 && cLen[0] == 1 && cLen[1] == 1 && cLen[2] == 1 {
 			c = int(l.getbits(cbit))
+			if c >= n1 {
+				_ = l.setCodeErr(fmt.Errorf("bad table"))
+				c = 0
+			}
 			for i = 0; i < n1; i++ {
 				cLen[i] = 0
 			}
@@ -92,7 +98,7 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
-	_ = makeTable(int16(n1), &cLen, 12, &cTable)
+	_ = l.setCodeErr(makeTable(int16(n1), &cLen, 12, &cTable))
 }
 
 /* ------------------------------------------------------------------------ */
@@ -114,6 +120,7 @@ func (l *Lha) readTreeP( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
+	_ = l.setCodeErr(makeTable(int16(np), &ptLen, 8, &ptTable))
 }
 
 /* ------------------------------------------------------------------------ */
@@ -144,8 +151,11 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 			l.readTreeP()
 		} else {
 			l.readyMade(1)
+			_ = makeTable(int16(np), &ptLen, 8, &ptTable)
+		}
+		if l.codeErr != nil {
+			return 0
 		}
-		_ = makeTable(int16(np), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
diff --git a/slide.go b/slide.go
index cc1c0aa..e35073b 100644
--- a/slide.go
+++ b/slide.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 	"strconv"
 )
 
@@ -113,6 +112,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	dicbit = uint16(inter.dicbit)
 	l.origsize = inter.original
 	l.compsize = inter.packed
+	l.codeErr = nil
 
 	initializeCrc(&crc)
 	dicsiz = int(1) << dicbit
@@ -141,7 +141,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	}
 	decodeCount = 0
 	l.loc = 0
-	for decodeCount < l.origsize {
+	for decodeCount < l.origsize && l.codeErr == nil {
 		c = uint(l.decodeMethodC(inter.method))
 		if c < 256 {
 			if l.DumpLzss {
@@ -155,7 +155,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 			dtext[l.loc] = byte(c)
 			l.loc++
 			if int(l.loc) == dicsiz {
-				_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+				_ = l.setCodeErr(l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile))
 				l.loc = 0
 			}
 			decodeCount++
@@ -177,14 +177,17 @@ func (l *Lha) decode(inter *interfacing) uint {
 				dtext[l.loc] = byte(c)
 				l.loc++
 				if int(l.loc) == dicsiz {
-					_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+					_ = l.setCodeErr(l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile))
 					l.loc = 0
 				}
 			}
 		}
 	}
 	if l.loc != 0 {
-		_ = l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile)
+		_ = l.setCodeErr(l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile))
+	}
+	if decodeCount > l.origsize {
+		_ = l.setCodeErr(fmt.Errorf("the last match runs past the original size"))
 	}
 	/* usually read size is interface->packed */
 	inter.readSize = inter.packed - l.compsize
@@ -276,7 +279,7 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 
 	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
 	if err != nil && io.EOF != err {
-		fmt.Fprintf(os.Stderr, "error while freadCrc : %v\n", err)
+		_ = l.setCodeErr(fmt.Errorf("file read error :%v", err))
 	}
 
 	l.remainder += uint(n)
@@ -397,6 +400,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	l.outfile = inter.outfile
 	l.origsize = inter.original
 	l.compsize = 0
+	l.codeErr = nil
 	count = 0
 	l.unpackable = false
 
@@ -413,7 +417,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	var v int
 
 	v, err = l.freadCrc(&crc, &text, uint(dicsiz), txtsiz-dicsiz, l.infile)
-	if err != nil {
+	if err != nil && err != io.EOF {
 		return 0, err
 	}
 	l.remainder = uint(v)
@@ -428,7 +432,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	token = initHash(pos)
 	insertHash(token, pos) /* associate token and pos */
 
-	for l.remainder > 0 && !l.unpackable {
+	for l.remainder > 0 && !l.unpackable && l.codeErr == nil {
 		last = match
 
 		l.nextToken(&token, &pos, &crc)
@@ -463,7 +467,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	inter.packed = l.compsize
 	inter.original = count
 
-	return crc, nil
+	return crc, l.codeErr
 }
 
 func initSlide() {
-- 
2.43.0


From 1173bcc373d732206d1c3b90803ff20532191d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:04 +0000
Subject: [PATCH 12/29] fix: read level 1, 2 and 3 headers and their extensions

The extended-header loop was driven by the base header's size, took the
wrong lengths, mistook the id field for a group name, dropped the
directory name and never summed the header; level 1 names lost their last
byte; fields of the previous member leaked into the next; DOS time stamps
were taken as UNIX times; and the 0xff path separator never matched.
Inconsistent sizes are now errors instead of panics.
---
 header.go | 123 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 74 insertions(+), 49 deletions(-)

diff --git a/header.go b/header.go
index 67517d3..4d8ef99 100644
--- a/header.go
+++ b/header.go
@@ -222,7 +222,8 @@ func subbits(n, off, len int) int {
 }
 
 func genericToUnixStamp(t int64) int64 {
-	return time.Unix(t, 0).Unix()
+	return time.Date(int(t>>25&0x7f)+1980, time.Month(t>>21&0x0f), int(t>>16&0x1f),
+		int(t>>11&0x1f), int(t>>5&0x3f), int(t&0x1f)*2, 0, time.Local).Unix()
 }
 
 func setupGet(p *[]byte, index, size int) {
@@ -239,7 +240,7 @@ func setupPut(p *[]byte, index int) {
 
 func unixToGenericStamp(t int64) int {
 	tm := time.Unix(t, 0)
-	us := ((tm.Year() - 80) << 25) +
+	us := ((tm.Year() - 1980) << 25) +
 		(int(tm.Month()) << 21) +
 		(tm.Day() << 16) +
 		(tm.Hour() << 11) +
@@ -295,28 +296,34 @@ func wintimeToUnixStamp() uint64 {
  *    size field is 4 bytes
  */
 
+var extMinSize = [256]int{0x00: 2, 0x40: 2, 0x41: 24, 0x50: 2, 0x51: 4, 0x54: 4}
+
 func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint) (error, int) {
 	data := make([]byte, lzheaderStorage)
-	var nameLength int
-	dirname := make([]byte, FilenameLength)
-	var dirLength, i int
+	var dirname []byte
 	wholeSize := headerSize
 	var extType int
-	n := i + l.SizeFieldLength /* `ext-type' + `next-header size' */
+	n := 1 + l.SizeFieldLength /* `ext-type' + `next-header size' */
 	if l.HeaderLevel == 0 {
 		return nil, 0
 	}
 
-	for l.HeaderSize != 0 {
+	for headerSize != 0 {
 		setupGet(&data, 0, len(data))
-		if len(data) < l.HeaderSize {
-			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
+		if len(data) < headerSize {
+			return fmt.Errorf("header size (%d) too large", headerSize), 0
+		}
+		if headerSize < n {
+			return fmt.Errorf("header size (%d) too small", headerSize), 0
 		}
-		nb, err := (*fp).Read(data[:l.HeaderSize])
-		if err != nil || nb == 0 {
+		_, err := io.ReadFull(*fp, data[:headerSize])
+		if err != nil {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
 		extType = int(getByte())
+		if headerSize < n+extMinSize[extType] {
+			return fmt.Errorf("header size (%d) too small", headerSize), 0
+		}
 		switch extType {
 		case 0:
 			l.HeaderCrc = uint(getWord())
@@ -324,14 +331,12 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* clear buffer for CRC calculation. */
 			data[1] = 0
 			data[2] = 0
-			skipBytes(l.HeaderSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(l.HeaderSize-n, len(l.Name))
-			l.Name[nameLength-1] = 0
+			l.Name, _ = getBytes(headerSize-n, headerSize-n)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, len(dirname))
-			dirname[dirLength-1] = 0
+			/* directory */
+			dirname, _ = getBytes(headerSize-n, headerSize-n)
 		case 0x40:
 			/* MS-DOS attribute */
 			l.Attribute = byte(getWord())
@@ -355,13 +360,17 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* UNIX permission */
 			l.UnixMode = uint16(getWord())
 		case 0x51:
+			/* UNIX group and user id */
+			l.UnixGid = uint16(getWord())
+			l.UnixUID = uint16(getWord())
+		case 0x52:
 			/* UNIX group name */
-			l.Group, i = getBytes(headerSize-n, len(l.Group))
-			l.Group[i-1] = 0
+			l.Group, _ = getBytes(headerSize-n, headerSize-n)
+			l.Group = append(l.Group, 0)
 		case 0x53:
 			/* UNIX user name */
-			l.User, i = getBytes(headerSize-n, len(l.User))
-			l.User[i-1] = 0
+			l.User, _ = getBytes(headerSize-n, headerSize-n)
+			l.User = append(l.User, 0)
 		case 0x54:
 			/* UNIX last modified time */
 			l.UnixLastModifiedStamp = int64(getLongword())
@@ -385,12 +394,12 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			   0xfe: extended attribute - platform information(another opinion)
 			   0xff: extended attribute - permission, owner-id and timestamp
 			         (level 3 on UNLHA32) */
-			skipBytes(headerSize - n)
 		}
-		if *hcrc != 0 {
-			*hcrc = calcCrc(*hcrc, &data, uint(getPtr), uint(headerSize))
+		if hcrc != nil {
+			*hcrc = calcCrc(*hcrc, &data, 0, uint(headerSize))
 		}
 
+		setupGet(&data, headerSize-l.SizeFieldLength, len(data))
 		if l.SizeFieldLength == 2 {
 			headerSize = getWord()
 			wholeSize += headerSize
@@ -400,6 +409,10 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		}
 	}
 
+	/* concatenate dirname and filename */
+	if len(dirname) > 0 {
+		l.Name = append(dirname, l.Name[:lengthOfStringInByte(l.Name)]...)
+	}
 	return nil, wholeSize
 }
 
@@ -492,9 +505,9 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 
-	if err != nil || nb == 0 {
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -525,6 +538,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 			l.ExtendType = ExtendGeneric
 			l.HasCrc = false
 
+			l.HeaderSize += 2
 			return nil, true
 		}
 
@@ -535,6 +549,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 	l.Crc = uint(getWord())
 
 	if extendSize == 0 {
+		l.HeaderSize += 2
 		return nil, true
 	}
 
@@ -598,7 +613,7 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	var extendSize int
 	var checksum int
 	var nameLength int
-	var i, dummy int
+	var dummy int
 
 	l.SizeFieldLength = 2 /* in bytes */
 	l.HeaderSize = int(getByte())
@@ -611,8 +626,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -630,8 +645,12 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 
 	nameLength = int(getByte())
 
-	l.Name, i = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
-	l.Name[i-1] = 0
+	dummy = headerSize + 2 - nameLength - iLevel1HeaderSize
+	if dummy < 0 {
+		return fmt.Errorf("invalid header size (LHarc file ?)"), false
+	}
+
+	l.Name, _ = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
 
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
@@ -642,15 +661,13 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	l.Crc = uint(getWord())
 	l.ExtendType = getByte()
 
-	dummy = headerSize + 2 - nameLength - iLevel1HeaderSize
 	if dummy > 0 {
 		skipBytes(dummy) /* skip old style extend header */
 	}
 
 	extendSize = getWord()
-	var trash uint
 	if extendSize > 0 {
-		err, extendSize = l.getExtendedHeader(fp, extendSize, &trash)
+		err, extendSize = l.getExtendedHeader(fp, extendSize, nil)
 		if err != nil || extendSize == -1 {
 			return err, false
 		}
@@ -660,6 +677,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	/* the `packed_size' field contains the extended header size. */
 	/* the `headerSize' field does not. */
 	l.PackedSize -= extendSize
+	if l.PackedSize < 0 {
+		return fmt.Errorf("invalid header size (LHarc file ?)"), false
+	}
 	l.HeaderSize += extendSize + 2
 
 	return nil, true
@@ -711,8 +731,8 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
-	if err != nil || n == 0 {
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel2HeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -735,7 +755,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 
 	initializeCrc(&hcrc)
 
-	hcrc = calcCrc(hcrc, &data, 0, uint(n-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(iLevel2HeaderSize))
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
 		return err, false
@@ -746,12 +766,11 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if padding != 0 && padding != 1 {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
-	padding--
-	for padding != 0 {
+	for ; padding != 0; padding-- {
 		buf := make([]byte, 1)
-		_, err := (*fp).Read(buf)
+		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
-			return err, false
+			return fmt.Errorf("invalid header (LHarc file ?)"), false
 		}
 		hcrc = updateCrc(hcrc, buf[0])
 	}
@@ -798,8 +817,11 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
-	if err != nil || nb == 0 {
+	if l.SizeFieldLength != 4 {
+		return fmt.Errorf("invalid size field length (%d)", l.SizeFieldLength), false
+	}
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel3HeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -827,7 +849,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	extendSize = getLongword()
 
 	initializeCrc(&hcrc)
-	hcrc = calcCrc(hcrc, &data, 0, uint(nb-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(iLevel3HeaderSize))
 
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
@@ -858,9 +880,10 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	var filenameCase int = none
 	var endMark byte
 
+	*l = *NewLzHeader() /* nothing of an earlier member is kept */
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
-	_, err := (*fp).Read(buf)
+	_, err := io.ReadFull(*fp, buf)
 
 	endMark = buf[0]
 	if err != nil || endMark == 0 {
@@ -868,8 +891,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	}
 	data[0] = endMark
 
-	nb, err := (*fp).Read(data[1:commonHeaderSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[1:commonHeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -898,6 +921,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		return fmt.Errorf("unknown level header (level %d)", data[iHeaderLevel]), false
 	}
 
+	l.Name = l.Name[:lengthOfStringInByte(l.Name)]
+
 	/* filename conversion */
 	switch l.ExtendType {
 	case ExtendMsdos:
@@ -962,8 +987,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		if p != -1 {
 			/* l.name is symbolic link name */
 			/* l.realname is real name */
-			copy(l.Realname[:], l.Name[p:len(l.Name)-1])
-			/* ok */
+			l.Realname = append([]byte{}, l.Name[p+1:]...)
+			l.Name = l.Name[:p]
 		} else {
 			return fmt.Errorf("unknown symlink name \"%s\"", l.Name), false
 		}
@@ -986,7 +1011,7 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 		}
 	}
 	for i = 0; i < len; i++ {
-		index := strings.Index(fromDelim, string((name)[i]))
+		index := strings.IndexByte(fromDelim, (name)[i])
 		if index != -1 {
 			//s := len(fromDelim)
 			(name)[i] = toDelim[index] //name[i] = to_delim[ptr - from_delim];
-- 
2.43.0


From fdb50f6ca6c2cc88ee534ca745b8fcee6112c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:04 +0000
Subject: [PATCH 13/29] fix: write level 1 and 2 headers that can be read back

The file name extension had no type byte and a short size, the path was
split at the first separator the wrong way round, the level 1 sizes were
computed from slice lengths (and panicked), the file type bits of the
mode were a decimal constant, directory names lacked their slash, and
symbolic links were refused unless their name contained '|'.
---
 header.go | 63 +++++++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/header.go b/header.go
index 4d8ef99..993f856 100644
--- a/header.go
+++ b/header.go
@@ -1,6 +1,7 @@
 package lha
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -90,7 +91,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	hdr.Attribute = genericAttribute
 	hdr.HeaderLevel = byte(l.HeaderLevel)
 	filename := filepath.Base(name)
-	copy(hdr.Name[:], filename)
+	hdr.Name = []byte(filename)
 	hdr.Crc = 0x0000
 	hdr.ExtendType = ExtendUnix
 	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()
@@ -105,24 +106,23 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	// but maybe you want to log warnings
 	hdr.UnixUID = uint16(os.Geteuid())
 	hdr.UnixGid = uint16(os.Getgid())
-	hdr.UnixMode = uint16(info.Mode().Perm()) + 33000
+	hdr.UnixMode = uint16(UnixFileRegular) | uint16(info.Mode().Perm())
 
 	if vStat.IsDir() {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
-		if name[len(name)-1] != '/' {
-			name += "/"
-		}
-		hdr.UnixMode += 40000
+		hdr.Name = append(hdr.Name, '/')
+		hdr.UnixMode = uint16(UnixFileDirectory) | uint16(info.Mode().Perm())
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
+		hdr.UnixMode = uint16(UnixFileSymlink) | uint16(vStat.Mode().Perm())
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
 		realname, err := os.Readlink(name)
 		if err == nil {
-			copy(hdr.Realname, []byte(realname))
+			hdr.Realname = []byte(realname)
 		} else {
 			fmt.Fprintf(os.Stderr, "error while reading symlink error : %v\n", err.Error())
 		}
@@ -1174,20 +1174,26 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
-		p := strings.LastIndex(string(hdr.Name), "|")
-
-		if p == -1 {
-			return fmt.Errorf("symlink name \"%s\" contains '|' char. change it into '_'", hdr.Name)
+		for p := range hdr.Name {
+			if hdr.Name[p] == '|' {
+				fmt.Fprintf(os.Stderr, "symlink name \"%s\" contains '|' char. change it into '_'\n", hdr.Name)
+				hdr.Name[p] = '_'
+			}
 		}
 		pathname = append(pathname, hdr.Name...)
 		pathname = append(pathname, '|')
 		pathname = append(pathname, hdr.Realname...)
+		pathname = append(pathname, 0)
 	} else {
 		pathname = append(pathname, hdr.Name...)
 		//	copy(pathname, hdr.Name)
 		pathname = append(pathname, 0)
 	}
 
+	if len(pathname) > 2*FilenameLength {
+		return fmt.Errorf("the length of pathname \"%s\" is too long", pathname)
+	}
+
 	convertFilename(pathname,
 		len(pathname),
 		len(pathname),
@@ -1229,14 +1235,14 @@ func writeUnixInfo(l *LzHeader) {
 	putWord(int(l.UnixUID))
 
 	if l.Group[0] != 0 {
-		length := len(l.Group)
+		length := lengthOfStringInByte(l.Group)
 		putWord(length + 3) /* size */
 		putByte(0x52)       /* group name */
 		putBytes(l.Group[:], length)
 	}
 
 	if l.User[0] != 0 {
-		length := len(l.User)
+		length := lengthOfStringInByte(l.User)
 		putWord(length + 3) /* size */
 		putByte(0x53)       /* user name */
 		putBytes(l.User[:], length)
@@ -1309,16 +1315,16 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	var nameLength, dirLength, limit int
 	var basename, dirname []byte
 	var headerSize int
-	var extendHeaderTop []byte
+	var extendHeaderTop int
 	var extendHeaderSize int
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
 
-	if index != 0 {
-		basename = pathname[0:index]
+	if index != -1 {
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1355,9 +1361,8 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	}
 
 	/* write extend header from here. */
-	extendHeaderTop = append(extendHeaderTop, data[putPtr+2:len(data)-(putPtr+2)]...)
-	//extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
-	headerSize = putPtr // - data - 2
+	extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
+	headerSize = putPtr          /* extendHeaderTop - 2 */
 
 	/* write filename and dirname */
 
@@ -1379,12 +1384,11 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	putWord(0x0000) /* next header size */
 
-	extendHeaderSize = len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
+	extendHeaderSize = putPtr - extendHeaderTop
 	/* On level 1 header, the packed size field is contains the ext-header */
-	l.PackedSize += len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
 	/* put `skip size' */
 	setupPut(&data, iPackedSize)
-	putLongWord(l.PackedSize)
+	putLongWord(l.PackedSize + extendHeaderSize)
 
 	data[iHeaderSize] = byte(headerSize)
 	data[iHeaderChecksum] = byte(calcSum(&data, iMethod, headerSize))
@@ -1408,14 +1412,14 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 	//extendHeaderTop := make([]byte, 0)
 	headercrcPtr := 0
 	var hcrc uint
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
 
 	if index != -1 {
-		basename = pathname[0:index]
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1458,8 +1462,8 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 
 	/* write filename and dirname */
 	/* must have this header, even if the nameLength is 0. */
-	putWord(nameLength) /* size */
-	//putByte(0x01)           /* filename */
+	putWord(nameLength + 3) /* size */
+	putByte(0x01)           /* filename */
 	putBytes(basename, nameLength)
 
 	if dirLength > 0 {
@@ -1467,7 +1471,6 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 		putByte(0x02)          /* dirname */
 		putBytes(dirname, dirLength)
 	}
-	headerSize = putPtr //- data
 	if !GenericFormat {
 		writeUnixInfo(l)
 	}
-- 
2.43.0


From 211fe40731cfa87abb629336b123c0637c0bcacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:36 +0000
Subject: [PATCH 14/29] fix: store incompressible members whole, and rewrite
 their own header

The stored retry neither rewound the input nor dropped the compressed
attempt, the final header was written over the start of the archive
instead of the member's, an empty input divided by zero, and errors of the
encoder or of the disk were ignored.
---
 append.go | 13 ++++++++++---
 lhext.go  | 56 ++++++++++++++++++++++++++++++++++++++++---------------
 util.go   |  2 +-
 3 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/append.go b/append.go
index 8b0016f..68f4683 100644
--- a/append.go
+++ b/append.go
@@ -24,6 +24,7 @@ const (
 func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_size_var *int, packed_size_var *int, name []byte, hdr_method []byte) (uint, error) {
 	var method = -1
 	var crc uint
+	var err error
 	inter := &interfacing{}
 
 	if method < 0 {
@@ -40,17 +41,23 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 		inter.outfile = *outfp
 		inter.original = size
 		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
-		crc, _ = l.encode(inter)
+		crc, err = l.encode(inter)
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
 	} else {
-		*original_size_var, _ = copyfile(infp, outfp, size, 0, &crc)
+		*original_size_var, err = copyfile(infp, outfp, size, 0, &crc)
 		*packed_size_var = *original_size_var
 	}
+	if err != nil {
+		return 0, err
+	}
 	copy(hdr_method, "-lh -")
 	hdr_method[3] = byte(inter.method) + '0'
 
-	indice := ((*packed_size_var * 100) / *original_size_var)
+	var indice int
+	if *original_size_var != 0 {
+		indice = ((*packed_size_var * 100) / *original_size_var)
+	}
 	finishIndicator2(string(name), "Frozen", &indice)
 	return crc, nil
 }
diff --git a/lhext.go b/lhext.go
index 94abce4..c9be2d4 100644
--- a/lhext.go
+++ b/lhext.go
@@ -298,7 +298,17 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		}
 	}
 
-	_ = WriteHeader(nafp, hdr) /* DUMMY */
+	naf, ok := (*nafp).(io.WriteSeeker)
+	if !ok {
+		return fmt.Errorf("cannot seek in the new archive")
+	}
+	headerPos, err := naf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil { /* DUMMY */
+		return err
+	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
@@ -312,33 +322,49 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-	hdr.Crc, _ = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
+	dataPos, err := naf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	hdr.Crc, err = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
 		&vOriginalSize, &vPackedSize, hdr.Name, hdr.Method)
+	if err != nil {
+		return err
+	}
 
 	if vPackedSize < vOriginalSize {
 		//	next_pos = 0 //ftello(nafp)
 	} else { /* retry by stored method */
-		var err error
+		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
+			return err
+		}
+		if _, err = naf.Seek(dataPos, io.SeekStart); err != nil {
+			return err
+		}
 		hdr.Crc, err = encodeStoredCrc(fp, nafp, hdr.OriginalSize, &vOriginalSize, &vPackedSize)
-		//if ftruncate(fileno(nafp), next_pos) == -1 {
 		if err != nil {
-			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			return err
+		}
+		/* drop what is left of the failed attempt */
+		if t, ok := (*nafp).(interface{ Truncate(int64) error }); ok {
+			if err = t.Truncate(dataPos + int64(vPackedSize)); err != nil {
+				return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			}
 		}
-		//}
-
-		//if chsize(fileno(nafp), next_pos) == -1 {
-		//	return fmt.Errorf("cannot truncate archive")
-		//}
 
 		copy(hdr.Method, []byte(Lzhuff0Method))
 	}
 	hdr.OriginalSize = vOriginalSize
 	hdr.PackedSize = vPackedSize
-	// go back to the beginning to set the new header
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekStart)
-	_ = WriteHeader(nafp, hdr)
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekEnd)
-	return nil
+	// go back to the beginning of the member to set the new header
+	if _, err = naf.Seek(headerPos, io.SeekStart); err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil {
+		return err
+	}
+	_, err = naf.Seek(0, io.SeekEnd)
+	return err
 }
 
 func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
diff --git a/util.go b/util.go
index 4d399c7..5ad3b98 100644
--- a/util.go
+++ b/util.go
@@ -70,12 +70,12 @@ func encodeStoredCrc(ifp *io.Reader, ofp *io.Writer, size int, original_size_var
 	save_quiet = Quiet
 	Quiet = true
 	size, err := copyfile(ifp, ofp, size, 1, &crc)
+	Quiet = save_quiet
 	if err != nil {
 		return 0, err
 	}
 	*original_size_var = size
 	*write_size_var = size
-	Quiet = save_quiet
 	return crc, nil
 }
 
-- 
2.43.0


From 4fec5c9c46df3c86e61716f7a808fb43406bfa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:42 +0000
Subject: [PATCH 15/29] fix: keep the other members when updating an archive,
 and fail without touching it

---
 lha.go   |  35 ++--
 lhext.go | 487 +++++++++++++++++++++++++------------------------------
 2 files changed, 242 insertions(+), 280 deletions(-)

diff --git a/lha.go b/lha.go
index 79e8694..9efb918 100644
--- a/lha.go
+++ b/lha.go
@@ -72,6 +72,9 @@ type Lha struct {
 	mostRecent           int64
 	newArchiveNameBuffer []byte
 	temporaryName        string
+	oldStamps            map[string]int64 /* time stamps of the members of the old archive */
+	replaced             map[string]bool  /* members written anew in this update */
+	archived             []string         /* files that went into the archive */
 	backupArchiveName    []byte
 }
 
@@ -149,33 +152,33 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, filename)
-	l.CmdFilec++
+	defer func(c int, v []string) {
+		l.CmdFilec, l.CmdFilev = c, v
+	}(l.CmdFilec, l.CmdFilev)
+	l.CmdFilev = []string{filename}
+	l.CmdFilec = 1
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
 
 	return compressBytes(l.archiveName, body, l)
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	if err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	l.newArchive = err != nil
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, fileToAdd)
-	l.CmdFilec++
+	defer func(c int, v []string) {
+		l.CmdFilec, l.CmdFilev = c, v
+	}(l.CmdFilec, l.CmdFilev)
+	l.CmdFilev = []string{fileToAdd}
+	l.CmdFilec = 1
 	return CommandAdd(l.archiveName, l)
 }
diff --git a/lhext.go b/lhext.go
index c9be2d4..c926de4 100644
--- a/lhext.go
+++ b/lhext.go
@@ -148,8 +148,9 @@ func lhaExit(status int) {
 	os.Exit(status)
 }
 
-func writeArchiveTail(nafp *io.Writer) {
-	_, _ = (*nafp).Write([]byte{0x00})
+func writeArchiveTail(nafp *io.Writer) error {
+	_, err := (*nafp).Write([]byte{0x00})
+	return err
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
@@ -168,7 +169,8 @@ func buildStandardArchiveName(buffer, original []byte, size int) []byte {
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
-	f, err := os.CreateTemp("./", "lh")
+	/* beside the archive, so that it can be renamed onto it */
+	f, err := os.CreateTemp(filepath.Dir(l.archiveName), "lh")
 	if err != nil {
 		return nil, err
 	}
@@ -177,16 +179,14 @@ func buildTemporaryFile(l *Lha) (*os.File, error) {
 }
 func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
 	if !l.Noexec {
-		var v uint
 		l.readingFilename = l.archiveName
 		l.writingFilename = l.temporaryName
-		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
+		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, nil)
 		if err != nil {
 			return err
 		}
 
 		/* directory and symlink are ignored for time-stamp archiving */
-		copy(hdr.Method, "-lhd-")
 		if l.mostRecent < hdr.UnixLastModifiedStamp {
 			l.mostRecent = hdr.UnixLastModifiedStamp
 		}
@@ -194,6 +194,118 @@ func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
 	return nil
 }
 
+// copyOldBefore copies the members of the old archive that come before hdr (all
+// of them without sorting or when hdr is nil), except those being replaced.
+func (l *Lha) copyOldBefore(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
+	for *oafp != nil {
+		oaf := (*oafp).(io.Seeker)
+		oldHeader, err := oaf.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+		ahdr := NewLzHeader()
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if err != nil && err != io.EOF {
+			return fmt.Errorf("cannot read archive \"%s\" :%v", l.archiveName, err)
+		}
+		if !hasHeader {
+			*oafp = nil
+			break
+		}
+		if hdr != nil && l.SortContents && bytes.Compare(ahdr.Name, hdr.Name) > 0 { /* INSERT */
+			_, err = oaf.Seek(oldHeader, io.SeekStart)
+			return err
+		}
+		if l.Noexec || l.replaced[string(ahdr.Name)] { /* drop old archive's */
+			if _, err = oaf.Seek(int64(ahdr.PackedSize), io.SeekCurrent); err != nil {
+				return err
+			}
+			continue
+		}
+		/* copy old to new */
+		if _, err = oaf.Seek(oldHeader, io.SeekStart); err != nil {
+			return err
+		}
+		if err = copyOldOne(oafp, nafp, ahdr, l); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// readOldStamps notes the time stamps of the members of the old archive.
+func (l *Lha) readOldStamps(oafp *io.Reader) error {
+	l.oldStamps = make(map[string]int64)
+	l.replaced = make(map[string]bool)
+	if *oafp == nil {
+		return nil
+	}
+	oaf := (*oafp).(io.Seeker)
+	start, err := oaf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	for {
+		ahdr := NewLzHeader()
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if err != nil && err != io.EOF {
+			return fmt.Errorf("cannot read archive \"%s\" :%v", l.archiveName, err)
+		}
+		if !hasHeader {
+			break
+		}
+		l.oldStamps[string(ahdr.Name)] = ahdr.UnixLastModifiedStamp
+		if _, err = oaf.Seek(int64(ahdr.PackedSize), io.SeekCurrent); err != nil {
+			return err
+		}
+	}
+	_, err = oaf.Seek(start, io.SeekStart)
+	return err
+}
+
+// replaces tells whether hdr goes into the archive, and notes it if so.
+func (l *Lha) replaces(hdr *LzHeader) bool {
+	if GenericFormat && string(hdr.Method) == LzhdirsMethod {
+		return false /* [generic] doesn't need directory info. */
+	}
+	stamp, exist := l.oldStamps[string(hdr.Name)]
+	if l.UpdateIfNewer && exist && stamp >= hdr.UnixLastModifiedStamp {
+		return false
+	}
+	l.replaced[string(hdr.Name)] = true
+	return true
+}
+
+// markReplaced notes the members that adding name is going to write anew.
+func (l *Lha) markReplaced(name string) {
+	stbuf, err := os.Lstat(name)
+	if err != nil {
+		return
+	}
+	hdr := NewLzHeader()
+	l.initHeader(name, stbuf, hdr)
+	l.replaces(hdr)
+	if stbuf.IsDir() && l.RecursiveArchiving {
+		var filec int
+		var filev []string
+		findFiles(name, &filec, &filev, l)
+		for i := 0; i < filec; i++ {
+			l.markReplaced(filev[i])
+		}
+	}
+}
+
+func (l *Lha) isExcluded(name string) bool {
+	for j := 0; j < len(l.ExcludeFiles); j++ {
+		a := strings.ToUpper(l.ExcludeFiles[j])
+		b := strings.ToUpper(filepath.Base(name))
+		if a == b {
+			return true
+		}
+	}
+	return false
+}
+
 func initSP(sp *stringPool) {
 	sp.Size = 1024 - 0
 	sp.Used = 0
@@ -205,8 +317,7 @@ func addSP(sp *stringPool, name []byte, size int) {
 	for sp.Used+size > sp.Size {
 		sp.Size *= 2
 	}
-	sp.Buffer[sp.N] = make([]byte, size)
-	copy(sp.Buffer[sp.N], name)
+	sp.Buffer = append(sp.Buffer, append([]byte{}, name[:size]...))
 	sp.Used += size
 	sp.N++
 }
@@ -215,53 +326,21 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	for i := 0; i < sp.N; i++ {
 		(*vVector) = append((*vVector), string(sp.Buffer[i]))
 	}
+	(*vCount) += sp.N
 }
 
-func findUpdateFiles(oafp *io.Reader, l *Lha) {
-	name := make([]byte, FilenameLength)
+func findUpdateFiles(l *Lha) {
 	sp := stringPool{}
-	hdr := NewLzHeader()
-	var lenName int
 
 	initSP(&sp)
-
-	for {
-		err, hasHeader := hdr.GetHeader(oafp)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "error while getting header : %v\n", err.Error())
-			break
-		}
-		if !hasHeader {
-			break
-		}
-		if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileRegular {
-			_, err = os.Lstat(string(name))
-
-			if os.IsExist(err) { /* exist ? */
-				addSP(&sp, hdr.Name, len(hdr.Name)+1)
-			}
-		} else {
-			if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileDirectory {
-				copy(name, hdr.Name) /* ok */
-				lenName = len(name)
-				if lenName > 0 && name[lenName-1] == '/' {
-					lenName--
-					name[lenName] = 0 /* strip tail '/' */
-				}
-				_, err = os.Lstat(string(name))
-
-				if os.IsExist(err) { /* exist ? */
-					addSP(&sp, name, lenName+1)
-				}
-			}
+	for name := range l.oldStamps {
+		name = strings.TrimSuffix(name, "/") /* strip tail '/' */
+		if _, err := os.Lstat(name); err == nil { /* exist ? */
+			addSP(&sp, []byte(name), len(name))
 		}
-		//	fseeko(oafp, hdr.packed_size, SEEK_CUR)
 	}
-
-	//fseeko(oafp, pos, SEEK_SET)
-
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
-
+	sort.Strings(l.CmdFilev)
 }
 
 // nolint: unused, deadcode
@@ -269,6 +348,7 @@ func buildBackupName(buffer, original string) []byte {
 	return modifyFilenameExtenstion([]byte(original), []byte(backupNameExtension), len(original))
 }
 func buildBackupFile(l *Lha) error {
+	l.backupArchiveName = buildBackupName("", l.archiveName)
 	return os.Rename(l.archiveName, string(l.backupArchiveName))
 }
 
@@ -279,7 +359,7 @@ func reportArchiveNameIfDifferent(l *Lha) {
 }
 
 func removeFiles(filec int, filev []string) {
-	for i := 0; i < filec; i++ {
+	for i := filec - 1; i >= 0; i-- { /* the contents of a directory first */
 		os.Remove(filev[i])
 	}
 }
@@ -368,10 +448,8 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 }
 
 func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-	ahdr := NewLzHeader()
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
 	var filec int
 	var filev []string
 	var i int
@@ -382,7 +460,8 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 
 	stbuf, err = os.Lstat(name)
 	if err != nil {
-		return oafp, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
+		fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
+		return oafp, nil
 	}
 
 	directory = stbuf.IsDir()
@@ -393,75 +472,25 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 		if err != nil {
 			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
 		}
+		defer fp.(*os.File).Close()
 	}
 
 	l.initHeader(name, stbuf, hdr)
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-
-				break
-			}
+	if l.replaces(hdr) {
+		if err = l.copyOldBefore(oafp, nafp, hdr); err != nil {
+			return oafp, err
 		}
-	}
-
-	if err == nil || cmp > 0 { /* not in archive */
 		if l.Noexec {
 			fmt.Printf("ADD %s\n", name)
 		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
+			if err = l.addOne(&fp, nafp, hdr); err != nil {
+				return oafp, err
 			}
+			l.archived = append(l.archived, name)
 		}
 	}
 
-	fp.(*os.File).Close()
-	//fp.Close()
-
 	if directory && l.RecursiveArchiving { /* recursive call */
 		if findFiles(name, &filec, &filev, l) {
 			for i = 0; i < filec; i++ {
@@ -478,7 +507,6 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
 	var i int
@@ -487,6 +515,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	var fw *os.File
 
 	l.mostRecent = 0
+	l.archived = nil
 
 	/* exit if no operation */
 	if !l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -496,8 +525,12 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
+		defer fr.Close()
 		oldArchiveExist = true
 		oafp = fr
 	}
@@ -509,8 +542,8 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
+	if l.NewArchive && oldArchiveExist {
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -532,24 +565,36 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		nafp = fw
+		defer func() {
+			if fw != nil { /* the new archive was not completed */
+				fw.Close()
+				os.Remove(l.temporaryName)
+			}
+		}()
+	}
+
+	if err := l.readOldStamps(&oafp); err != nil {
+		return err
 	}
 
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
+		findUpdateFiles(l)
 	}
 
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
 		return nil
 	}
 
+	for i = 0; i < l.CmdFilec; i++ {
+		if l.CmdFilev[i] != l.archiveName && !l.isExcluded(l.CmdFilev[i]) {
+			l.markReplaced(l.CmdFilev[i])
+		}
+	}
+
 	for i = 0; i < l.CmdFilec; i++ {
 		var j int
 
@@ -565,43 +610,27 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 
 		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-			oafp = *pf
+		if l.isExcluded(l.CmdFilev[i]) {
+			continue
 		}
-
+		pf, err := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
+		if err != nil {
+			return err
+		}
+		oafp = *pf
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
-		}
-		fr.Close()
+	if err := l.copyOldBefore(&oafp, &nafp, nil); err != nil {
+		return err
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err := writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -610,13 +639,15 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if err := fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
@@ -631,6 +662,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
+			fw = nil
 		}
 
 		/* set new archive file mode/group */
@@ -638,8 +670,8 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
+	if l.DeleteAfterAppend && !l.Noexec {
+		removeFiles(len(l.archived), l.archived)
 	}
 
 	return nil
@@ -678,13 +710,8 @@ func (s *StreamFileInfo) Sys() interface{} {
 }
 
 func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) (*io.Reader, error) {
-	ahdr := NewLzHeader()
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
-	var filec int
-	var filev []string
-	var i int
 	stbuf := &StreamFileInfo{
 		name:    name,
 		size:    int64(len(body)),
@@ -696,84 +723,24 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	fp = bytes.NewReader(body)
 	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
+	if l.replaces(hdr) {
+		if err = l.copyOldBefore(oafp, nafp, hdr); err != nil {
+			return oafp, err
 		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-				break
-			}
-		}
-	}
-
-	if err == nil || cmp > 0 { /* not in archive */
 		if l.Noexec {
 			fmt.Printf("ADD %s\n", name)
 		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
+			if err = l.addOne(&fp, nafp, hdr); err != nil {
+				return oafp, err
 			}
 		}
 	}
 
-	if l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendBytes(filev[i], oafp, nafp, body)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
-		}
-	}
 	return oafp, nil
 }
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
 	var i int
@@ -791,8 +758,12 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
+		defer fr.Close()
 		oldArchiveExist = true
 		oafp = fr
 	}
@@ -804,8 +775,8 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
+	if l.NewArchive && oldArchiveExist {
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -827,21 +798,27 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 			return err
 		}
 		nafp = fw
+		defer func() {
+			if fw != nil { /* the new archive was not completed */
+				fw.Close()
+				os.Remove(l.temporaryName)
+			}
+		}()
+	}
+
+	if err := l.readOldStamps(&oafp); err != nil {
+		return err
 	}
 
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
+		findUpdateFiles(l)
 	}
 
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
 		return nil
 	}
 
@@ -860,43 +837,27 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		}
 
 		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-			oafp = *pf
+		if l.isExcluded(l.CmdFilev[i]) {
+			continue
 		}
-
+		pf, err := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
+		if err != nil {
+			return err
+		}
+		oafp = *pf
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
-		}
-		fr.Close()
+	if err := l.copyOldBefore(&oafp, &nafp, nil); err != nil {
+		return err
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err := writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -905,13 +866,15 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if err := fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
@@ -926,17 +889,13 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
+			fw = nil
 		}
 
 		/* set new archive file mode/group */
 		setArchiveFileMode()
 	}
 
-	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
-	}
-
 	return nil
 }
 
@@ -1936,8 +1895,8 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 		newname = append(newname, '/')
 	}
 
-	fileinfo, _ := os.Lstat(name)
-	if !fileinfo.IsDir() {
+	fileinfo, err := os.Lstat(name)
+	if err != nil || !fileinfo.IsDir() {
 		return false
 	}
 
-- 
2.43.0


From 6d268179a1010568679da35133b09c33e407371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 16/29] fix: report damaged headers and truncated members, and
 skip exactly the other members

---
 lha.go   |  27 +++-------
 lhext.go | 146 +++++++++++++++++++++----------------------------------
 2 files changed, 64 insertions(+), 109 deletions(-)

diff --git a/lha.go b/lha.go
index 9efb918..c7336b8 100644
--- a/lha.go
+++ b/lha.go
@@ -89,7 +89,6 @@ func NewLha(archivename string) *Lha {
 }
 
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
-	var pos int
 	// verify mode here, no extraction
 	VerifyMode = true
 	defer func() {
@@ -106,31 +105,21 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
-		if !hasHeader {
-			break
+		if err != nil && err != io.EOF {
+			return headers, err
 		}
-		if err != nil {
+		if !hasHeader {
 			break
 		}
 		headers = append(headers, h)
-		pos = 0
-		// seek io.reader to + file size
+		body := memberBody(or, h)
 		if l.needFile(string(h.Name[:])) {
-			readSize, err := l.extractOne(&or, h)
-			if err != nil {
+			if _, err := l.extractOne(&body, h); err != nil {
 				return headers, err
 			}
-			if readSize != h.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&or, pos, h.PackedSize, readSize); err != nil {
-					return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err == nil {
-				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
-			}
+		}
+		if err := skipToNextpos(&body); err != nil {
+			return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
 		}
 	}
 	return headers, nil
diff --git a/lhext.go b/lhext.go
index c926de4..c38d29c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -334,7 +334,7 @@ func findUpdateFiles(l *Lha) {
 
 	initSP(&sp)
 	for name := range l.oldStamps {
-		name = strings.TrimSuffix(name, "/") /* strip tail '/' */
+		name = strings.TrimSuffix(name, "/")      /* strip tail '/' */
 		if _, err := os.Lstat(name); err == nil { /* exist ? */
 			addSP(&sp, []byte(name), len(name))
 		}
@@ -927,7 +927,6 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
-	var i int
 
 	var packedSizeTotal int
 	var originalSizeTotal int
@@ -941,6 +940,7 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	/* print header message */
@@ -952,6 +952,9 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	var hasHeader bool
 	for {
 		err, hasHeader = hdr.GetHeader(&afp)
+		if err == io.EOF {
+			err = nil
+		}
 		if !hasHeader {
 			break
 		}
@@ -962,14 +965,13 @@ func CommandList(archiveFilepath string, l *Lha) error {
 			originalSizeTotal += hdr.OriginalSize
 		}
 
-		i = hdr.PackedSize
-		v := make([]byte, i)
-		_, _ = afp.Read(v)
+		body := memberBody(afp, hdr)
+		if err = skipToNextpos(&body); err != nil {
+			err = fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
+			break
+		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* print tailer message */
 	if !Quiet {
 		listTailer(listFiles, packedSizeTotal, originalSizeTotal, l)
@@ -1038,7 +1040,7 @@ func CommadDelete(archiveFilepath string, l *Lha) error {
 
 func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	hdr := NewLzHeader()
-	var pos int
+	var found bool
 	var afp io.Reader
 	var outputData []byte
 
@@ -1047,6 +1049,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	if err != nil {
 		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1056,49 +1059,38 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
-		if err == io.EOF {
-			break
-		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return outputData, err
 		}
 		if !hasHeader {
-			return outputData, nil
+			break
 		}
-		pos = 0
+		body := memberBody(afp, hdr)
 
 		if string(hdr.Name) == string(header.Name) {
-			var readSize int
-			readSize, outputData, err = l.extractOneStream(&afp, hdr)
+			found = true
+			_, outputData, err = l.extractOneStream(&body, hdr)
 			if err != nil {
 				return outputData, err
 			}
-			if readSize != hdr.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
-			}
+		}
+		if err := skipToNextpos(&body); err != nil {
+			return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return outputData, fmt.Errorf("\"%s\" is not in the archive", header.Name)
+	}
 	return outputData, nil
 }
 
 func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
-	var pos int
+	var found bool
 	var afp io.Reader
 
 	/* open archive file */
@@ -1106,6 +1098,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1115,48 +1108,36 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
-		if err == io.EOF {
-			break
-		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
-		pos = 0
+		body := memberBody(afp, hdr)
 
 		if string(hdr.Name) == string(header.Name) {
-			readSize, err := l.extractOne(&afp, hdr)
-			if err != nil {
+			found = true
+			if _, err := l.extractOne(&body, hdr); err != nil {
 				return err
 			}
-			if readSize != hdr.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
-			}
+		}
+		if err := skipToNextpos(&body); err != nil {
+			return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return fmt.Errorf("\"%s\" is not in the archive", header.Name)
+	}
 	return nil
 }
 
 func CommandExtract(archiveFilepath string, l *Lha) error {
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 	//var read_size int
 
@@ -1167,6 +1148,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1176,38 +1158,23 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
-		if err == io.EOF {
-			break
-		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
-		pos = 0
+		body := memberBody(afp, hdr)
 		if l.needFile(string(hdr.Name[:])) {
-			readSize, err := l.extractOne(&afp, hdr)
-			if err != nil {
+			if _, err := l.extractOne(&body, hdr); err != nil {
 				return err
 			}
-			if readSize != hdr.PackedSize {
-				/* when error occurred in extract_one(), should adjust
-				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
-					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
-				}
-			}
-		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
-			}
+		}
+		if err := skipToNextpos(&body); err != nil {
+			return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1246,19 +1213,18 @@ func (l *Lha) adjustDirinfo() {
 	}
 }
 
-func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
-	if pos != -1 {
-		b := make([]byte, pos+off)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	} else {
-		b := make([]byte, off-readSize)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
+// memberBody gives the packed data of the member hdr, which afp has reached.
+func memberBody(afp io.Reader, hdr *LzHeader) io.Reader {
+	return io.LimitReader(afp, int64(hdr.PackedSize))
+}
+
+// skipToNextpos skips what is left of the packed data of a member.
+func skipToNextpos(body *io.Reader) error {
+	if _, err := io.Copy(io.Discard, *body); err != nil {
+		return err
+	}
+	if (*body).(*io.LimitedReader).N > 0 {
+		return io.ErrUnexpectedEOF
 	}
 	return nil
 }
-- 
2.43.0


From f8101ea66163dbb0b0c01db458b45702b3380509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:15 +0000
Subject: [PATCH 17/29] fix: extract members at their own path, inside the
 target directory, and ask before overwriting

---
 lhext.go | 246 +++++++++++++++++++++++++------------------------------
 1 file changed, 113 insertions(+), 133 deletions(-)

diff --git a/lhext.go b/lhext.go
index c38d29c..ae3bdbe 100644
--- a/lhext.go
+++ b/lhext.go
@@ -45,7 +45,7 @@ func isDirectoryTraversal(path string) bool {
 		case 0:
 			if path[i] == '.' {
 				state = 1
-			} else {
+			} else if path[i] != '/' {
 				state = 3
 			}
 
@@ -79,17 +79,24 @@ func isDirectoryTraversal(path string) bool {
 }
 
 func inquire(msg string, name string, selective string) int {
-	reader := bufio.NewReader(os.Stdin)
+	b := make([]byte, 1)
 
 	for {
 		fmt.Fprintf(os.Stdout, "%s %s ", name, msg)
-		response, _ := reader.ReadString('\n')
-
-		for i := 0; i <= len(selective); i++ {
-			if response[0] == selective[0] {
-				return i - len(selective)
+		var response []byte
+		for { /* no more than the line is taken from the input */
+			if _, err := io.ReadFull(os.Stdin, b); err != nil {
+				return len(selective) - 1 /* no answer */
+			}
+			response = append(response, b[0])
+			if b[0] == '\n' {
+				break
 			}
 		}
+
+		if i := strings.IndexByte(selective, response[0]); i >= 0 {
+			return i
+		}
 	}
 	/* NOTREACHED */
 }
@@ -117,19 +124,15 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 		if !l.Force {
 
 			switch inquire("OverWrite ?(Yes/[No]/All/Skip)", name, "YyNnAaSs\n") {
-			case 0:
-			case 1: /* Y/y */
+			case 0, 1: /* Y/y */
 
-			case 2:
-			case 3: /* N/n */
-			case 8: /* Return */
+			case 2, 3, /* N/n */
+				8: /* Return */
 				return false, fmt.Errorf("skip no response")
-			case 4:
-			case 5: /* A/a */
+			case 4, 5: /* A/a */
 				l.Force = true
 
-			case 6:
-			case 7: /* S/s */
+			case 6, 7: /* S/s */
 				l.skipFlg = true
 
 			}
@@ -1056,6 +1059,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		_, _ = hdr.SeekLhaHeader(&afp)
 	}
 
+	/* adjust directory information, once everything is in place */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1079,9 +1085,6 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		}
 	}
 
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	if !found {
 		return outputData, fmt.Errorf("\"%s\" is not in the archive", header.Name)
 	}
@@ -1105,6 +1108,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		_, _ = hdr.SeekLhaHeader(&afp)
 	}
 
+	/* adjust directory information, once everything is in place */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1127,9 +1133,6 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		}
 	}
 
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	if !found {
 		return fmt.Errorf("\"%s\" is not in the archive", header.Name)
 	}
@@ -1155,6 +1158,9 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		_, _ = hdr.SeekLhaHeader(&afp)
 	}
 
+	/* adjust directory information, once everything is in place */
+	defer l.adjustDirinfo()
+
 	/* extract each files */
 	for {
 		err, hasHeader := hdr.GetHeader(&afp)
@@ -1175,9 +1181,6 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	/* adjust directory information */
-	l.adjustDirinfo()
-
 	return nil
 }
 
@@ -1186,20 +1189,26 @@ func adjustInfo(name string, hdr *LzHeader) {
 	/* adjust file stamp */
 	utimebuf := time.Unix(hdr.UnixLastModifiedStamp, 0)
 
-	if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {
+	st, err := os.Lstat(name)
+	if err != nil {
+		return
+	}
+	symlink := st.Mode()&os.ModeSymlink != 0
+
+	if !symlink {
 		_ = os.Chtimes(name, utimebuf, utimebuf)
 	}
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileTypemask) {
-			_ = os.Chmod(name, os.FileMode(hdr.UnixMode))
+		if !symlink {
+			_ = os.Chmod(name, os.FileMode(hdr.UnixMode).Perm())
 		}
 
 		uid := hdr.UnixUID
 		gid := hdr.UnixGid
 
-		_ = os.Chown(name, int(uid), int(gid))
+		_ = os.Lchown(name, int(uid), int(gid))
 
 	}
 
@@ -1229,55 +1238,53 @@ func skipToNextpos(body *io.Reader) error {
 	return nil
 }
 
-func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
+func makeNameWithPathcheck(q string, l *Lha) (bool, []byte, error) {
+	var name string
 
-	var offset int
 	if len(l.ExtractDirectory) > 0 {
 		name = l.ExtractDirectory + "/"
-		offset += len(name)
 	}
-	var p int
-	p = strings.Index(q, "/")
+	p := strings.Index(q, "/")
 	for p != -1 {
-		name += q[p:]
-		offset += len(q) - p
-
-		_, err := os.Lstat(name)
-		if err != nil {
-			return false, []byte(name), err
-		}
-		_, err = filepath.EvalSymlinks(name)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "this not a symlink [%s] : %v\n ", name, err)
+		name += q[:p]
+		st, err := os.Lstat(name)
+		if err == nil && st.Mode()&os.ModeSymlink != 0 {
+			fmt.Fprintf(os.Stderr, "this is a symlink [%s]\n", name)
 			return false, []byte(name), nil
 		}
-		p = strings.Index(q[p:], "/")
-	}
-	last := namesz - offset
-	if offset == 0 {
-		last = len(q) - 1
+		name += "/"
+		q = q[p+1:]
+		p = strings.Index(q, "/")
 	}
-	name = q[offset:last]
+	name += q
 	return true, []byte(name), nil
 }
 
+/* make the directories leading to name, which is one itself if it ends with '/' */
 func makeParentPath(name string) (bool, error) {
-	st, err := os.Lstat(name)
-	if err != nil {
-		return false, err
-	}
-	if st.IsDir() {
-		return true, nil
-	}
-	err = os.MkdirAll(name, 0777)
+	err := os.MkdirAll(filepath.Dir(name), 0777)
 	if err != nil {
 		return false, err
 	}
 	return true, nil
 }
 
+/* remove what stands at name, but never a directory */
+func removeExisting(name string) {
+	st, err := os.Lstat(name)
+	if err == nil && !st.IsDir() {
+		os.Remove(name)
+	}
+}
+
 func openWithMakePath(name string) (io.Writer, error) {
-	f, err := os.Create(name)
+	removeExisting(name)
+	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+	if os.IsNotExist(err) {
+		if _, err = makeParentPath(name); err == nil {
+			f, err = os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+		}
+	}
 	if err != nil {
 		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
 	}
@@ -1286,39 +1293,31 @@ func openWithMakePath(name string) (io.Writer, error) {
 }
 
 func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
-	var p, tmp, top *LzHeaderList
-
-	(*p) = LzHeaderList{}
 	if string((*hdr).Method[:]) != LzhdirsMethod {
 		return
 	}
-	(*p).Hdr = &LzHeader{}
-	(*p).Hdr.Name = (*hdr).Name
-	top.Next = l.dirinfo
-	for tmp = top; tmp.Next != nil; tmp = tmp.Next {
-		if string((*p).Hdr.Name) == string((*tmp).Next.Hdr.Name) {
-			(*p).Next = (*tmp).Next
-			(*tmp).Next = p
-			break
-		}
-	}
-
-	if (*tmp).Next == nil {
-		(*p).Next = nil
-		(*tmp).Next = p
+	p := &LzHeaderList{Hdr: &LzHeader{}}
+	*p.Hdr = *hdr
+	p.Hdr.Name = []byte(name)
+	/* deeper directories first, so that their parents are adjusted last */
+	tmp := &l.dirinfo
+	for *tmp != nil && (*tmp).Hdr != nil && name < string((*tmp).Hdr.Name) {
+		tmp = &(*tmp).Next
 	}
-	l.dirinfo = (*top).Next
+	p.Next = *tmp
+	*tmp = p
 }
 
 func symlinkWithMakePath(realname string, name string) int {
 	var lCode int
 
+	removeExisting(name)
 	err := os.Symlink(realname, name)
 	if err != nil {
 		_, _ = makeParentPath(name)
 		err = os.Symlink(realname, name)
 		if err != nil {
-			lCode = 1
+			lCode = -1
 		}
 	}
 
@@ -1380,52 +1379,38 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 
 func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
 	var crc uint
 	var method int
 	var saveQuiet, saveVerbose, upFlag bool
-	var q = hdr.Name
-	var c byte
 	var readSize int
 
-	p := strings.LastIndex(string(hdr.Name[:]), "/")
-	if p == -1 {
-		p = 0
-	}
+	q := string(hdr.Name)
 	if l.IgnoreDirectory {
-		p++
-	} else {
-
-		if isDirectoryTraversal(string(hdr.Name[p:])) {
-			return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name[p:])
-		}
-
-		if hdr.Name[p] == '/' {
-			for hdr.Name[p] == '/' {
-				p++
-			}
-
-			/*
-			 * if OSK then strip device name
-			 */
-			if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
-				for {
-					c = hdr.Name[p]
-					p++
-					if p >= len(hdr.Name) || c == '/' {
-						break
-					}
-				}
-				if c != 0 || hdr.Name[p] != 0 {
-					hdr.Name[p] = '.' /* if device name only */
-				}
+		q = q[strings.LastIndex(q, "/")+1:]
+	}
+	if strings.HasPrefix(q, "/") {
+		q = strings.TrimLeft(q, "/")
+
+		/*
+		 * if OSK then strip device name
+		 */
+		if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
+			_, q, _ = strings.Cut(q, "/")
+			q = strings.TrimLeft(q, "/")
+			if q == "" {
+				q = "." /* if device name only */
 			}
 		}
-
 	}
-	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(hdr.Name[p:]), l)
-	if err != nil || !ok {
-		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
+	if !l.OutputToStdout && !VerifyMode && isDirectoryTraversal(q) {
+		return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name)
+	}
+	ok, name, err := makeNameWithPathcheck(q, l)
+	if !l.OutputToStdout && !VerifyMode && (err != nil || !ok) {
+		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", hdr.Name)
+	}
+	if !ok {
+		name = hdr.Name
 	}
 
 	/* LZHDIRS_METHODを持つヘッダをチェックする */
@@ -1439,7 +1424,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		}
 	}
 
-	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
+	fileType := hdr.UnixMode & uint16(UnixFileTypemask)
+	if (fileType == uint16(UnixFileRegular) ||
+		l.Force && fileType != uint16(UnixFileDirectory) && fileType != uint16(UnixFileSymlink)) && method != LzhdirsMethodNum {
 		//	extractRegular:
 		l.readingFilename = l.archiveName
 		l.writingFilename = string(name[:])
@@ -1493,11 +1480,8 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			}
 
 			if l.skipFlg {
-				_, err := os.Lstat(string(name[:]))
-				if err != nil && os.IsExist(err) {
-					return 0, err
-				}
-				if !l.Force {
+				st, err := os.Lstat(string(name[:]))
+				if err == nil && !l.Force && st.ModTime().Unix() >= hdr.UnixLastModifiedStamp {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
 					}
@@ -1550,8 +1534,8 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 					}
 
 					if l.skipFlg {
-						_, err := os.Lstat(string(name[:]))
-						if err == nil && !l.Force {
+						st, err := os.Lstat(string(name[:]))
+						if err == nil && !l.Force && st.ModTime().Unix() >= hdr.UnixLastModifiedStamp {
 							if !Quiet {
 								fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
 							}
@@ -1561,28 +1545,24 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 
 					lcode = symlinkWithMakePath(string(hdr.Realname[:]), string(name[:]))
 					if lcode < 0 {
-						if !Quiet {
-							fmt.Fprintf(os.Stderr, "Can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
-						}
+						return readSize, fmt.Errorf("can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
 					}
 					if !Quiet {
 						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
 					}
 				} else { /* make directory */
-					ok, err := makeParentPath(string(name[:]))
+					ok, err := makeParentPath(string(name[:]) + "/")
 					if err != nil || !ok {
-						return readSize, nil
+						return readSize, fmt.Errorf("cannot make directory \"%s\" :%v", name, err)
 					}
 					/* save directory information */
 					l.addDirinfo(string(name[:]), hdr)
 				}
-			}
-		} else {
-			if l.Force { /* force extract */
-				//goto extractRegular
 			} else {
-				return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
+				return readSize, nil
 			}
+		} else {
+			return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
 		}
 	}
 
-- 
2.43.0


From 66b259731b2b9ce996dfb4b98f507f83dc22690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:34 +0000
Subject: [PATCH 18/29] fix: find the first header of a self-extracting archive

---
 header.go | 38 ++++++++++++++++++++------------------
 lha.go    |  3 +++
 lhext.go  | 27 ++++++++++++++++-----------
 util.go   |  2 +-
 4 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/header.go b/header.go
index 993f856..43b7c76 100644
--- a/header.go
+++ b/header.go
@@ -1034,15 +1034,21 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 /* skip SFX header */
 func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 	buffer := make([]byte, 64*1024) /* max seek size */
-	var p [64 * 1024]byte
-	var n int
-	n, err := (*fp).Read(buffer)
+	afp, ok := (*fp).(io.Seeker)
+	if !ok {
+		return fmt.Errorf("cannot seek header"), 0
+	}
+	start, err := afp.Seek(0, io.SeekCurrent)
 	if err != nil {
 		return err, 0
 	}
+	n, err := io.ReadFull(*fp, buffer)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		return err, 0
+	}
 
-	for i := 0; i < n; i++ {
-		copy(p[:], buffer[i:len(buffer)-1-i])
+	for i := 0; i+commonHeaderSize <= n; i++ {
+		p := buffer[i:n]
 
 		if !(p[iMethod] == '-' && (p[iMethod+1] == 'l' || p[iMethod+1] == 'p') && p[iMethod+4] == '-') {
 			continue
@@ -1050,26 +1056,22 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 		/* found "-[lp]??-" keyword (as METHOD type string) */
 
 		/* level 0 or 1 header */
-		var calcSum byte //calcSum(p+2, p[I_HEADER_SIZE])
-		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 && p[iHeaderChecksum] == calcSum {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		size := int(p[iHeaderSize])
+		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && size > 20 && size+2 <= len(p) && int(p[iHeaderChecksum]) == calcSum(&p, 2, size) {
+			_, err = afp.Seek(start+int64(i), io.SeekStart)
+			return err, 0
 		}
 
 		/* level 2 header */
 		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+			_, err = afp.Seek(start+int64(i), io.SeekStart)
+			return err, 0
 		}
 	}
 
-	//	if fseeko(fp, -n, SEEK_CUR) == -1 {
-	//		return fmt.Errorf("cannot seek header"), 1
-	//	}
+	if _, err = afp.Seek(start, io.SeekStart); err != nil {
+		return err, 0
+	}
 	return nil, -1
 }
 
diff --git a/lha.go b/lha.go
index c7336b8..3884dd4 100644
--- a/lha.go
+++ b/lha.go
@@ -102,6 +102,9 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	}
 	defer fr.Close()
 	var or io.Reader = fr
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = NewLzHeader().SeekLhaHeader(&or)
+	}
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
diff --git a/lhext.go b/lhext.go
index ae3bdbe..b673b7f 100644
--- a/lhext.go
+++ b/lhext.go
@@ -166,9 +166,10 @@ func modifyFilenameExtenstion(buffer, ext []byte, size int) []byte {
 
 }
 
-func buildStandardArchiveName(buffer, original []byte, size int) []byte {
-	copy(buffer, original[:size])
-	return modifyFilenameExtenstion(buffer, []byte(archiveNameExtension), size)
+func buildStandardArchiveName(original []byte) []byte {
+	buffer := bytes.TrimSuffix(original, []byte(filepath.Ext(string(original))))
+	buffer = buffer[:len(buffer):len(buffer)]
+	return modifyFilenameExtenstion(buffer, []byte(archiveNameExtension), len(buffer))
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
@@ -550,11 +551,11 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
+		l.newArchiveNameBuffer = buildStandardArchiveName([]byte(l.archiveName))
 		l.newArchiveName = string(l.newArchiveNameBuffer)
+		if oafp != nil {
+			_, _ = NewLzHeader().SeekLhaHeader(&oafp)
+		}
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -783,11 +784,11 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
+		l.newArchiveNameBuffer = buildStandardArchiveName([]byte(l.archiveName))
 		l.newArchiveName = string(l.newArchiveNameBuffer)
+		if oafp != nil {
+			_, _ = NewLzHeader().SeekLhaHeader(&oafp)
+		}
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -946,6 +947,10 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	defer f.Close()
 	afp = f
 
+	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		_, _ = hdr.SeekLhaHeader(&afp)
+	}
+
 	/* print header message */
 	if !Quiet {
 		listHeader(l)
diff --git a/util.go b/util.go
index 5ad3b98..a2ef1dc 100644
--- a/util.go
+++ b/util.go
@@ -93,7 +93,7 @@ func archiveIsMsdosSfx1(name []byte) bool {
 
 	if length >= 2 {
 		extension := strings.ToUpper(filepath.Ext(string(name)))
-		if extension == ".x" {
+		if extension == ".X" {
 			return true
 		}
 	}
-- 
2.43.0


From 90e06820c78bb7fa70b7bf891c9ea450d592529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:00 +0000
Subject: [PATCH 19/29] fix: pass the -v, -n, -f, -c, -u and -m options of the
 command on

---
 cmd/lharc.go | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index e59cd72..d5aa8ad 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -14,21 +14,18 @@ const ()
 
 var (
 	// nolint: unused, deadcode
-	version         = flag.Bool("version", false, "print version of application ")
-	listfile        = flag.Bool("l", false, "List ")
-	listfileverbose = flag.Bool("lv", false, "Verbose List ")
-	extractfile     = flag.Bool("e", false, "EXtract from archive ")
-	updatefile      = flag.Bool("u", false, "Update newer files to archive ")
-	deletefile      = flag.Bool("d", false, "Delete from archive ")
-	addfile         = flag.String("a", "", "Add(or replace) to archive ")
-	movefile        = flag.Bool("m", false, "Move to archive ")
-	createfile      = flag.String("c", "", "re-Construct new archive ")
-	testcrcfile     = flag.Bool("t", false, "Test file CRC in archive ")
-	// nolint: unused, deadcode
-	verbosemodeoption = flag.Bool("v", false, "verbose ")
-	// nolint: unused, deadcode
-	nonexecuteoption = flag.Bool("n", false, "not execute")
-	// nolint: unused, deadcode
+	version            = flag.Bool("version", false, "print version of application ")
+	listfile           = flag.Bool("l", false, "List ")
+	listfileverbose    = flag.Bool("lv", false, "Verbose List ")
+	extractfile        = flag.Bool("e", false, "EXtract from archive ")
+	updatefile         = flag.Bool("u", false, "Update newer files to archive ")
+	deletefile         = flag.Bool("d", false, "Delete from archive ")
+	addfile            = flag.String("a", "", "Add(or replace) to archive ")
+	movefile           = flag.Bool("m", false, "Move to archive ")
+	createfile         = flag.String("c", "", "re-Construct new archive ")
+	testcrcfile        = flag.Bool("t", false, "Test file CRC in archive ")
+	verbosemodeoption  = flag.Bool("v", false, "verbose ")
+	nonexecuteoption   = flag.Bool("n", false, "not execute")
 	forceoption        = flag.Bool("f", false, "force (over write at extract) ")
 	printstdoutarchive = flag.Bool("p", false, "Print to STDOUT from archive ")
 	genericformat      = flag.Int("g", 2, " Generic format (for compatibility) 0/1/2 header level (a/u/c) ")
@@ -44,12 +41,6 @@ var (
 	// nolint: unused, deadcode
 	quietMode int
 	// nolint: unused, deadcode
-	newArchive bool
-	// nolint: unused, deadcode
-	updateIfNewer bool
-	// nolint: unused, deadcode
-	deleteAfterAppend bool
-	// nolint: unused, deadcode
 	backupOldArchive bool
 	// nolint: unused, deadcode
 	getFilenameFromStdin bool
@@ -107,6 +98,10 @@ func main() {
 Parse LHA command and options.
 */
 func parseOption() {
+	l.Verbose = *verbosemodeoption
+	l.Noexec = *nonexecuteoption
+	l.Force = *forceoption
+
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
@@ -124,7 +119,7 @@ func parseOption() {
 	}
 
 	if *createfile != "" {
-		newArchive = true
+		l.NewArchive = true
 		cmd = lha.CmdAdd
 		l.CmdFilev = append(l.CmdFilev, *createfile)
 		l.CmdFilec++
@@ -143,13 +138,13 @@ func parseOption() {
 
 	if *updatefile {
 		cmd = lha.CmdAdd
-		updateIfNewer = true
+		l.UpdateIfNewer = true
 
 	}
 
 	if *movefile {
 		cmd = lha.CmdAdd
-		deleteAfterAppend = true
+		l.DeleteAfterAppend = true
 
 	}
 
@@ -187,8 +182,8 @@ func parseSubOption() {
 		case 7:
 			l.CompressMethod = lha.Lzhuff7MethodNum
 		default:
-			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'", *compressionmethod)
-			return
+			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'\n", *compressionmethod)
+			os.Exit(1)
 		}
 	}
 
-- 
2.43.0


From 605c12156b235bd2b7d4032ae0730569591b76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 20/29] fix: a negative method number stores the member as lh0
 instead of writing a bad method

---
 append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 68f4683..3c54f02 100644
--- a/append.go
+++ b/append.go
@@ -29,7 +29,7 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 
 	if method < 0 {
 		method = l.CompressMethod
-		if method > 0 {
+		if method != 0 {
 			method, _ = encodeAlloc(method)
 		}
 	}
-- 
2.43.0


From 2856790b65537161190f54f32d84d17aec18cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 21/29] fix: keep the archive in place while its backup is made

---
 lhext.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index b673b7f..d46a257 100644
--- a/lhext.go
+++ b/lhext.go
@@ -353,7 +353,14 @@ func buildBackupName(buffer, original string) []byte {
 }
 func buildBackupFile(l *Lha) error {
 	l.backupArchiveName = buildBackupName("", l.archiveName)
-	return os.Rename(l.archiveName, string(l.backupArchiveName))
+	/* the archive itself stays in place until the new one is renamed onto it */
+	if err := os.Remove(string(l.backupArchiveName)); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if os.Link(l.archiveName, string(l.backupArchiveName)) == nil {
+		return nil
+	}
+	return Copy(l.archiveName, string(l.backupArchiveName)) /* no hard links there */
 }
 
 func reportArchiveNameIfDifferent(l *Lha) {
-- 
2.43.0


From 2ef6ebbf6af44dfe51d5ea0f31c3e6722d4082e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:15 +0000
Subject: [PATCH 22/29] fix: a member that cannot be extracted because
 something is in its way is reported

---
 lhext.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lhext.go b/lhext.go
index d46a257..9f617f7 100644
--- a/lhext.go
+++ b/lhext.go
@@ -119,7 +119,8 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 	}
 
 	if l.Noexec {
-		return false, fmt.Errorf("EXTRACT %s but file is exist", name)
+		fmt.Printf("EXTRACT %s but file is exist\n", name)
+		return false, nil
 	} else {
 		if !l.Force {
 
@@ -128,7 +129,7 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 
 			case 2, 3, /* N/n */
 				8: /* Return */
-				return false, fmt.Errorf("skip no response")
+				return false, nil
 			case 4, 5: /* A/a */
 				l.Force = true
 
@@ -1485,9 +1486,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		} else {
 			if !l.skipFlg {
 
-				upFlag, _ = inquireExtract(string(name[:]), l)
+				upFlag, err = inquireExtract(string(name[:]), l)
 				if !upFlag && !l.Force {
-					return readSize, nil
+					return readSize, err
 				}
 			}
 
@@ -1539,9 +1540,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
 					var lcode int
 					if !l.skipFlg {
-						upFlag, _ = inquireExtract(string(name[:]), l)
+						upFlag, err = inquireExtract(string(name[:]), l)
 						if !upFlag && !l.Force {
-							return readSize, nil
+							return readSize, err
 						}
 					}
 
-- 
2.43.0


From 304264c380d1d6c0832690dbe7721c0b11fa5424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:23 +0000
Subject: [PATCH 23/29] fix: a directory member without a recorded mode does
 not lose its search permission

---
 lhext.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index 9f617f7..c253ebf 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1214,7 +1214,8 @@ func adjustInfo(name string, hdr *LzHeader) {
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if !symlink {
+		/* a directory whose mode was not recorded keeps that of a new one */
+		if !symlink && (!st.IsDir() || hdr.UnixMode&uint16(UnixFileTypemask) == uint16(UnixFileDirectory)) {
 			_ = os.Chmod(name, os.FileMode(hdr.UnixMode).Perm())
 		}
 
-- 
2.43.0


From cb0e85e5fbbabc5bf33c65be5ddb1e7650d37243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:55 +0000
Subject: [PATCH 24/29] fix: a directory that cannot be read is reported
 instead of being archived without its contents

---
 lhext.go | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/lhext.go b/lhext.go
index c253ebf..daba3cf 100644
--- a/lhext.go
+++ b/lhext.go
@@ -282,10 +282,10 @@ func (l *Lha) replaces(hdr *LzHeader) bool {
 }
 
 // markReplaced notes the members that adding name is going to write anew.
-func (l *Lha) markReplaced(name string) {
+func (l *Lha) markReplaced(name string) error {
 	stbuf, err := os.Lstat(name)
 	if err != nil {
-		return
+		return nil /* reported when it is added */
 	}
 	hdr := NewLzHeader()
 	l.initHeader(name, stbuf, hdr)
@@ -293,11 +293,16 @@ func (l *Lha) markReplaced(name string) {
 	if stbuf.IsDir() && l.RecursiveArchiving {
 		var filec int
 		var filev []string
-		findFiles(name, &filec, &filev, l)
+		if err = findFiles(name, &filec, &filev, l); err != nil {
+			return fmt.Errorf("cannot read directory \"%s\": %s", name, err.Error())
+		}
 		for i := 0; i < filec; i++ {
-			l.markReplaced(filev[i])
+			if err = l.markReplaced(filev[i]); err != nil {
+				return err
+			}
 		}
 	}
+	return nil
 }
 
 func (l *Lha) isExcluded(name string) bool {
@@ -504,15 +509,16 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	}
 
 	if directory && l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendIt(filev[i], oafp, nafp)
-				if err != nil {
-					return oafp, err
-				}
+		if err = findFiles(name, &filec, &filev, l); err != nil {
+			return oafp, fmt.Errorf("cannot read directory \"%s\": %s", name, err.Error())
+		}
+		for i = 0; i < filec; i++ {
+			oafp, err = l.appendIt(filev[i], oafp, nafp)
+			if err != nil {
+				return oafp, err
 			}
-			freeFiles(filec, &filev)
 		}
+		freeFiles(filec, &filev)
 	}
 	return oafp, nil
 }
@@ -603,7 +609,9 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 
 	for i = 0; i < l.CmdFilec; i++ {
 		if l.CmdFilev[i] != l.archiveName && !l.isExcluded(l.CmdFilev[i]) {
-			l.markReplaced(l.CmdFilev[i])
+			if err := l.markReplaced(l.CmdFilev[i]); err != nil {
+				return err
+			}
 		}
 	}
 
@@ -1844,7 +1852,7 @@ func freeSp(filev *[]string) {
 	(*filev) = (*filev)[:0]
 }
 
-func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
+func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) error {
 
 	sp := &stringPool{}
 	newname := make([]byte, FilenameLength)
@@ -1856,17 +1864,20 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 	}
 
 	fileinfo, err := os.Lstat(name)
-	if err != nil || !fileinfo.IsDir() {
-		return false
+	if err != nil {
+		return err
+	}
+	if !fileinfo.IsDir() {
+		return nil
 	}
 
 	initSP(sp)
 	files, err := os.ReadDir(name)
 	if err != nil {
-		return false
+		return err
 	}
 	if len(files) == 0 {
-		return false
+		return nil
 	}
 	for j := 0; j < len(files); j++ {
 		var toExclude bool
@@ -1887,5 +1898,5 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 	finishSP(sp, vfilec, vfilev)
 	sort.Strings(*vfilev)
 	//cleaningFiles(vfilec, vfilev)
-	return true
+	return nil
 }
-- 
2.43.0


From 65e75baffc9c60ccf11c98fbacd83da4239bf41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:54 +0000
Subject: [PATCH 25/29] fix: the archive and its temporary file are never
 archived, under whatever name they are found

---
 lhext.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lhext.go b/lhext.go
index daba3cf..0f2b539 100644
--- a/lhext.go
+++ b/lhext.go
@@ -281,12 +281,25 @@ func (l *Lha) replaces(hdr *LzHeader) bool {
 	return true
 }
 
+// isOwn tells whether the file is one that the update itself writes.
+func (l *Lha) isOwn(stbuf os.FileInfo) bool {
+	for _, name := range []string{l.archiveName, l.newArchiveName, l.temporaryName} {
+		if own, err := os.Lstat(name); err == nil && os.SameFile(own, stbuf) {
+			return true
+		}
+	}
+	return false
+}
+
 // markReplaced notes the members that adding name is going to write anew.
 func (l *Lha) markReplaced(name string) error {
 	stbuf, err := os.Lstat(name)
 	if err != nil {
 		return nil /* reported when it is added */
 	}
+	if l.isOwn(stbuf) {
+		return nil
+	}
 	hdr := NewLzHeader()
 	l.initHeader(name, stbuf, hdr)
 	l.replaces(hdr)
@@ -480,6 +493,9 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 		fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
 		return oafp, nil
 	}
+	if l.isOwn(stbuf) {
+		return oafp, nil
+	}
 
 	directory = stbuf.IsDir()
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
-- 
2.43.0


From f02c451f3a74092ad32c5d2c95cb96fb9d771797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:28 +0000
Subject: [PATCH 26/29] fix: moving a file that has the backup's name does not
 remove the backup just made

---
 lhext.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lhext.go b/lhext.go
index 0f2b539..acd749c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -8,6 +8,7 @@ import (
 
 	"os"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -707,6 +708,14 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 
 	/* remove archived files */
 	if l.DeleteAfterAppend && !l.Noexec {
+		if oldArchiveExist && l.BackupOldArchive { /* not the backup just made */
+			if backup, err := os.Lstat(string(l.backupArchiveName)); err == nil {
+				l.archived = slices.DeleteFunc(l.archived, func(name string) bool {
+					stbuf, err := os.Lstat(name)
+					return err == nil && os.SameFile(stbuf, backup)
+				})
+			}
+		}
 		removeFiles(len(l.archived), l.archived)
 	}
 
-- 
2.43.0


From b6c940bc8492246b1d2650dbdab0107d3987d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:55 +0000
Subject: [PATCH 27/29] fix: updating all members adds a name only once

With a directory d/ and a file d in the archive, an update without names
given added the file d there now twice.
---
 lhext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lhext.go b/lhext.go
index acd749c..15d3308 100644
--- a/lhext.go
+++ b/lhext.go
@@ -365,6 +365,8 @@ func findUpdateFiles(l *Lha) {
 	}
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
 	sort.Strings(l.CmdFilev)
+	l.CmdFilev = slices.Compact(l.CmdFilev) /* a directory and a file may have had one name */
+	l.CmdFilec = len(l.CmdFilev)
 }
 
 // nolint: unused, deadcode
-- 
2.43.0


From 2f837959ed14cea0ea7d7ed31efa1ae1a0544e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:44 +0000
Subject: [PATCH 28/29] fix: find a level 2 header of any size behind a program

---
 header.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 43b7c76..d996134 100644
--- a/header.go
+++ b/header.go
@@ -1063,7 +1063,8 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 		}
 
 		/* level 2 header */
-		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
+		size = int(p[iHeaderSize]) + int(p[iHeaderSize+1])<<8
+		if p[iHeaderLevel] == 2 && size >= iLevel2HeaderSize && p[iAttribute] == 0x20 {
 			_, err = afp.Seek(start+int64(i), io.SeekStart)
 			return err, 0
 		}
-- 
2.43.0


From 8bc6f017b7c1d91a3ff56a4cacbe1c21673334e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 29/29] fix: a member is replaced also if its name is kept in
 another form

---
 lhext.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 15d3308..0b77ea3 100644
--- a/lhext.go
+++ b/lhext.go
@@ -203,6 +203,10 @@ func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
 // copyOldBefore copies the members of the old archive that come before hdr (all
 // of them without sorting or when hdr is nil), except those being replaced.
 func (l *Lha) copyOldBefore(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
+	var name []byte
+	if hdr != nil {
+		name = storedName(hdr)
+	}
 	for *oafp != nil {
 		oaf := (*oafp).(io.Seeker)
 		oldHeader, err := oaf.Seek(0, io.SeekCurrent)
@@ -218,7 +222,7 @@ func (l *Lha) copyOldBefore(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader) err
 			*oafp = nil
 			break
 		}
-		if hdr != nil && l.SortContents && bytes.Compare(ahdr.Name, hdr.Name) > 0 { /* INSERT */
+		if hdr != nil && l.SortContents && bytes.Compare(ahdr.Name, name) > 0 { /* INSERT */
 			_, err = oaf.Seek(oldHeader, io.SeekStart)
 			return err
 		}
@@ -269,16 +273,34 @@ func (l *Lha) readOldStamps(oafp *io.Reader) error {
 	return err
 }
 
+// storedName is the name under which hdr is found in the archive again; not all
+// names can be kept there.
+func storedName(hdr *LzHeader) []byte {
+	var b bytes.Buffer
+	var w io.Writer = &b
+	var r io.Reader = &b
+	h, stored := *hdr, NewLzHeader()
+	h.Name = append([]byte{}, hdr.Name...)
+	if err := WriteHeader(&w, &h); err != nil {
+		return hdr.Name
+	}
+	if _, hasHeader := stored.GetHeader(&r); !hasHeader {
+		return hdr.Name
+	}
+	return stored.Name
+}
+
 // replaces tells whether hdr goes into the archive, and notes it if so.
 func (l *Lha) replaces(hdr *LzHeader) bool {
 	if GenericFormat && string(hdr.Method) == LzhdirsMethod {
 		return false /* [generic] doesn't need directory info. */
 	}
-	stamp, exist := l.oldStamps[string(hdr.Name)]
+	name := string(storedName(hdr))
+	stamp, exist := l.oldStamps[name]
 	if l.UpdateIfNewer && exist && stamp >= hdr.UnixLastModifiedStamp {
 		return false
 	}
-	l.replaced[string(hdr.Name)] = true
+	l.replaced[name] = true
 	return true
 }
 
-- 
2.43.0

