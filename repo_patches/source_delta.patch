From 40d82d027781205eeff04be940f5cc71895cd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:46 +0000
Subject: [PATCH 01/25] fix: only accept bPC value 255 as indicator of variable
 bit depth

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 5f5ef9e..906c7cf 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -535,7 +535,7 @@ class BoxValidator:
         # 1. bPCDepth in range 1-38 (including limits)
         # 2. OR bPC equal 255 (indicating that components vary in bit depth)
         bPCDepthIsWithinAllowedRange = 1 <= bPCDepth <= 38
-        bitDepthIsVariable = 1 <= bPC <= 255
+        bitDepthIsVariable = bPC == 255
 
         if bPCDepthIsWithinAllowedRange or bitDepthIsVariable:
             bPCIsValid = True
-- 
2.43.0


From 46cbaf12b405a6dca6ce6a468568d5530c9f00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:46 +0000
Subject: [PATCH 02/25] fix: base cAssocIsValid test on cAssoc instead of cTyp

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 906c7cf..a2db5b3 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1099,7 +1099,7 @@ class BoxValidator:
             self.addCharacteristic("cAssoc", cAssoc)
 
             # Allowed range: 0 - 65535
-            self.testFor("cAssocIsValid", 0 <= cTyp <= 65535)
+            self.testFor("cAssocIsValid", 0 <= cAssoc <= 65535)
 
             if cTyp in [1, 2]:
                 alphaChannels.append([cTyp, cAssoc])
-- 
2.43.0


From 191097e3eecb02b81e9a1d9b62f5e8203b22f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:13 +0000
Subject: [PATCH 03/25] fix: read palette values entry by entry, using the
 width of each column

---
 jpylyzer/boxvalidator.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index a2db5b3..3b4ce65 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -965,6 +965,18 @@ class BoxValidator:
         # nPC within range 1-255
         self.testFor("nPCIsValid", 1 <= nPC <= 255)
 
+        # Values of all columns are grouped together for each entry, so the
+        # location of a value depends on the widths of all columns
+        bytesPaddedCols = []
+
+        for i in range(nPC):
+            b = bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i])
+
+            # If bDepth is not a multiple of 8 bits add padding bits
+            # E.g. if bDepth is 10, value will be stored in low 10 bits of
+            # 16-bit field
+            bytesPaddedCols.append(math.ceil(((b & 127) + 1) / 8))
+
         # Following parameters are repeated for each column
         for i in range(nPC):
 
@@ -986,25 +998,20 @@ class BoxValidator:
             # limits)
             self.testFor("bDepthIsValid", 1 <= bDepth <= 38)
 
-            # If bDepth is not a multiple of 8 bits add padding bits
-            # E.g. if bDepth is 10, bDepthPadded will be 16 bits, and
-            # C value will be stored in low 10 bits of 16-bit field
-            bDepthPadded = math.ceil(bDepth / 8) * 8
-            bytesPadded = int(bDepthPadded / 8)
-
-            # Start offset of cP entries for this column
-            offset = nPC + 3 + i * (nE * bytesPadded)
+            # Start offset of first cP value for this column
+            offset = nPC + 3 + sum(bytesPaddedCols[0:i])
 
             for _ in range(nE):
                 # Get bytes for this entry
-                cPAsBytes = self.boxContents[offset:offset + bytesPadded]
+                cPAsBytes = self.boxContents[offset:offset + bytesPaddedCols[i]]
 
                 # Convert to integer (cP could be *any* length so we cannot rely
                 # on struct.unpack!)
                 cP = bc.bytesToInteger(cPAsBytes)
                 self.addCharacteristic("cP", cP)
 
-                offset += bytesPadded
+                # Next entry for this column
+                offset += sum(bytesPaddedCols)
 
     def validate_componentMappingBox(self):
         """Component mapping box (ISO/IEC 15444-1 Section I.5.3.5).
-- 
2.43.0


From 16d1fcdfc31864b2a7a88880b9a43e256554f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 04/25] fix: always set capability for rsiz values with profile
 8 or undefined main level

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 3b4ce65..77ec51e 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1814,6 +1814,8 @@ class BoxValidator:
                 capability = "Scalable 4K digital cinema profile"
             elif mainLevel == 7:
                 capability = "Long-term storage profile"
+            else:
+                capability = "Unknown (value not defined in ISO/IEC 15444-1)"
         elif profile == 1:
             capability = "Broadcast Contribution Single Tile Profile, Mainlevel " + \
                 str(mainLevel)
@@ -1836,7 +1838,7 @@ class BoxValidator:
             capability = "2k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 8:
-            rsiz = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
+            capability = "4k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
                 str(mainLevel) + "; Sublevel " + str(subLevel)
         elif profile == 9:
             capability = "8k IMF Single/Multi Tile Reversible Profile, Mainlevel " + \
-- 
2.43.0


From b226c93d20efade784f3696c443d34b404fcd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 05/25] fix: packet lengths of more than 2 bytes, and endless
 loop on unterminated packet length

---
 jpylyzer/boxvalidator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 77ec51e..45b5854 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -267,16 +267,16 @@ class BoxValidator:
         while i < lpl and i < len(
                 self.boxContents):  # Don't over-read on bad lplt/lplm
             ipl_i_len = 1  # number of bytes making up the current ipl(t|m)_i
-            while bc.bytesToUnsignedChar(
+            while i + ipl_i_len < len(self.boxContents) and bc.bytesToUnsignedChar(
                     self.boxContents[i + ipl_i_len - 1:i + ipl_i_len]) & 0x80:
                 ipl_i_len += 1
 
             # Join all the segments together
-            iplt_i = bc.bytesToUnsignedChar(self.boxContents[i:i + 1])
-            for ipl_index in range(1, ipl_i_len):
-                iplt_i = (iplt_i & 0x7F) << 7
+            iplt_i = 0
+            for ipl_index in range(ipl_i_len):
+                iplt_i = iplt_i << 7
                 iplt_i |= bc.bytesToUnsignedChar(
-                    self.boxContents[i + ipl_index:i + ipl_index + 1])
+                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F
 
             i += ipl_i_len
             iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
-- 
2.43.0


From 10e412d2ce449a1d984c625a291d181514c58b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 06/25] fix: never move backwards in codestream if length of
 tile-part cannot be read

---
 jpylyzer/boxvalidator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 45b5854..c8cf600 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1680,12 +1680,13 @@ class BoxValidator:
                         # tilePartsPerTileFound (e.g. because the isot field is
                         # damaged)
                         break
-                    if offsetNext != offset:
+                    if offsetNext > offset:
                         offset = offsetNext
                     else:
                         # offsetNext same as offset: this happens if image only contains
                         # one single tile-part (psot=0), in which case we break out of
-                        # this loop
+                        # this loop (offsetNext is smaller than offset if psot could
+                        # not be read)
                         break
 
             # Length of tileIndices must equal numberOfTilesExpected
-- 
2.43.0


From 4b8da1f2e9be3bf987c3e90c8c81318286101938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 07/25] fix: zero division error for resolution boxes with zero
 denominator

---
 jpylyzer/boxvalidator.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index c8cf600..0b6b8f2 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -229,6 +229,14 @@ class BoxValidator:
 
         return compressionRatio
 
+    def _calculateResolution(self, numerator, denominator, exponent):
+        """Compute grid resolution, or return 0 if it is not defined
+        because of a zero denominator.
+        """
+        if denominator == 0:
+            return 0.0
+        return (numerator / denominator) * (10 ** exponent)
+
     def _getBitValue(self, n, p, wordLength=8):
         """Get the bit value of denary (base 10) number n.
 
@@ -1220,11 +1228,13 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vRescInPixelsPerMeter = (vRcN / vRcD) * (10 ** (vRcE))
+        vRescInPixelsPerMeter = self._calculateResolution(
+            vRcN, vRcD, vRcE)
         self.addCharacteristic(
             "vRescInPixelsPerMeter", round(vRescInPixelsPerMeter, 2))
 
-        hRescInPixelsPerMeter = (hRcN / hRcD) * (10 ** (hRcE))
+        hRescInPixelsPerMeter = self._calculateResolution(
+            hRcN, hRcD, hRcE)
         self.addCharacteristic(
             "hRescInPixelsPerMeter", round(hRescInPixelsPerMeter, 2))
 
@@ -1279,11 +1289,13 @@ class BoxValidator:
 
         # Include vertical and horizontal resolution values in pixels per meter
         # and pixels per inch in output
-        vResdInPixelsPerMeter = (vRdN / vRdD) * (10 ** (vRdE))
+        vResdInPixelsPerMeter = self._calculateResolution(
+            vRdN, vRdD, vRdE)
         self.addCharacteristic(
             "vResdInPixelsPerMeter", round(vResdInPixelsPerMeter, 2))
 
-        hResdInPixelsPerMeter = (hRdN / hRdD) * (10 ** (hRdE))
+        hResdInPixelsPerMeter = self._calculateResolution(
+            hRdN, hRdD, hRdE)
         self.addCharacteristic(
             "hResdInPixelsPerMeter", round(hResdInPixelsPerMeter, 2))
 
-- 
2.43.0


From 9a8fc86de25428e1999fbf403124fc7dc54ea6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 08/25] fix: don't raise exception on incomplete UUIDs

---
 jpylyzer/boxvalidator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 0b6b8f2..fdeefb7 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -3332,6 +3332,10 @@ class BoxValidator:
         # Check box size, which must be greater than 16 bytes
         self.testFor("boxLengthIsValid", boxLength > 16)
 
+        if boxLength < 16:
+            # Incomplete UUID
+            return
+
         # First 16 bytes contain UUID, convert to string of hex digits
         # in standard form
         boxUUID = str(uuid.UUID(bytes=self.boxContents[0:16]))
@@ -3432,6 +3436,9 @@ class BoxValidator:
         # Loop through all UUIDs
         offset = 2
         for _ in range(nU):
+            if len(self.boxContents) < offset + 16:
+                # Incomplete UUID
+                break
             boxUUID = str(
                 uuid.UUID(bytes=self.boxContents[offset:offset + 16]))
             self.addCharacteristic("uuid", boxUUID)
-- 
2.43.0


From bec55c80bc387dc739cad72ee11a865f88a52efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 09/25] fix: use vertical offset for height in compression
 ratio of raw codestreams

---
 jpylyzer/boxvalidator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index fdeefb7..d324024 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1749,7 +1749,7 @@ class BoxValidator:
                 # Calculate compression ratio
                 ssizDepthValues = characteristicsSIZ.findAllText('ssizDepth')
                 ysiz = characteristicsSIZ.findElementText('ysiz')
-                yOsiz = characteristicsSIZ.findElementText('xOsiz')
+                yOsiz = characteristicsSIZ.findElementText('yOsiz')
                 xsiz = characteristicsSIZ.findElementText('xsiz')
                 xOsiz = characteristicsSIZ.findElementText('xOsiz')
 
-- 
2.43.0


From ea8c3641ca4544958f6b23bde44e3a61ff109e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 10/25] fix: read all entries of PRF and CPF marker segments,
 and test the last one

---
 jpylyzer/boxvalidator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index d324024..d8b78ca 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2891,7 +2891,8 @@ class BoxValidator:
         for i in range(nopprfs):
             pprf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             PRFnum += pprf * 2 ** (16 * i)
-            if i == nopprfs:
+            offset += 2
+            if i == nopprfs - 1:
                 # last pprf shall not be zero
                 self.testFor("pprfIsValid", pprf != 0)
 
@@ -2907,7 +2908,7 @@ class BoxValidator:
 
         # lcpf  must be within range 4-65534
         if self.format in ['jph', 'jhc']:
-            self.testFor("lcpIsValid", 4 <= lcpf <= 65534)
+            self.testFor("lcpfIsValid", 4 <= lcpf <= 65534)
 
         # Number of pcpf entries
         nopcpfs = int((lcpf - 2) / 2)
@@ -2919,7 +2920,8 @@ class BoxValidator:
         for i in range(nopcpfs):
             pcpf = bc.bytesToUShortInt(self.boxContents[offset:offset + 2])
             CPFnum += pcpf * 2 ** (16 * i)
-            if i == nopcpfs:
+            offset += 2
+            if i == nopcpfs - 1:
                 # last pcpf shall not be zero
                 if self.format in ['jph', 'jhc']:
                     self.testFor("pcpfIsValid", pcpf != 0)
-- 
2.43.0


From 98b3ea67e46a658dc9d31ca1d14ea7b5b84a991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 11/25] fix: don't confuse incomplete box type with codestream
 marker

---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index d8b78ca..84c189c 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -143,6 +143,10 @@ class BoxValidator:
         # Box type
         boxType = self.boxContents[byteStart + 4:byteStart + 8]
 
+        # Box type may be incomplete at end of file; pad it, so that it cannot be
+        # mistaken for the (2-byte) code of a codestream marker
+        boxType = boxType.ljust(4, b'\x00')
+
         # Start byte of box contents
         contentsStartOffset = 8
 
-- 
2.43.0


From 21224ced7e32e622bffd5e4798261d9fb69fd738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 12/25] fix: quantization step sizes of QCC start after the
 quantization style

---
 jpylyzer/boxvalidator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 84c189c..d2e5cc6 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -2548,6 +2548,7 @@ class BoxValidator:
 
         # Quantization style for this component
         sqcc = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
+        offset += 1
 
         # sqcc contains 2 quantization parameters: style + no of guard bits
 
-- 
2.43.0


From 7e18e2d5eae28490f8426a5a241b7bd0bc879cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:28 +0000
Subject: [PATCH 13/25] fix: signature of SGI platform in ICC profiles has 4
 bytes

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index b95af40..ce9e749 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -128,7 +128,7 @@ def generatePropertiesRemapTable():
     primaryPlatformMap = {}
     primaryPlatformMap[b'APPL'] = "Apple Computer, Inc."
     primaryPlatformMap[b'MSFT'] = "Microsoft Corporation"
-    primaryPlatformMap[b'SGI'] = "Silicon Graphics, Inc."
+    primaryPlatformMap[b'SGI '] = "Silicon Graphics, Inc."
     primaryPlatformMap[b'SUNW'] = "Sun Microsystems, Inc."
 
     # Transparency (ICC)
-- 
2.43.0


From 1c2635c70eab500a00c3f34fcdea5fd4a7b6a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:28 +0000
Subject: [PATCH 14/25] fix: report integers that exceed Python's limit for
 conversion to string

---
 jpylyzer/etpatch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/etpatch.py b/jpylyzer/etpatch.py
index 741d15e..384cd91 100644
--- a/jpylyzer/etpatch.py
+++ b/jpylyzer/etpatch.py
@@ -19,6 +19,7 @@ TODO:
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #
 
+import decimal
 import xml.etree.ElementTree as ET
 from . import byteconv as bc
 from . import config
@@ -123,7 +124,12 @@ class Element(ET.Element):
                 if textType == bytes:
                     textOut = bc.bytesToText(remappedValue)
                 elif textType in numericTypes:
-                    textOut = str(remappedValue)
+                    try:
+                        textOut = str(remappedValue)
+                    except ValueError:
+                        # Python limits the number of digits of integers that
+                        # are converted to a string
+                        textOut = str(decimal.Decimal(remappedValue))
                 else:
                     textOut = bc.removeControlCharacters(remappedValue)
 
-- 
2.43.0


From 954e01c1e16a3d22a4d5e815c0205db7b606cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:03 +0000
Subject: [PATCH 15/25] fix: require CAP marker also if rsiz combines it with
 ISO/IEC 15444-2

---
 jpylyzer/boxvalidator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index d2e5cc6..3a233f0 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1620,8 +1620,8 @@ class BoxValidator:
             # are defined there
             rsiz = self.characteristics.findElementText(
                 'siz/rsiz')
-            # Two most significant bits of rsiz indicate CAP marker use
-            if (rsiz >> 14) & 15 == 1:
+            # Second most significant bit of rsiz indicates CAP marker use
+            if rsiz >> 14 in [1, 3]:
                 self.testFor("foundCAPMarker", foundCAPMarker)
 
             # Remainder of codestream is a sequence of tile parts, followed by one
-- 
2.43.0


From 7f0820232d1ba5219b3e235f47a30ed210fd3f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:04 +0000
Subject: [PATCH 16/25] fix: only compare number of tile-parts for tiles that
 announce it

---
 jpylyzer/boxvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 3a233f0..bf59dd1 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1711,8 +1711,10 @@ class BoxValidator:
 
             # Found numbers of tile	parts per tile must match expected
             if tilePartsPerTileExpected:
+                # (tiles of which tnsot is never set don't have an expected number)
                 self.testFor("foundExpectedNumberOfTileParts",
-                            tilePartsPerTileExpected == tilePartsPerTileFound)
+                             all(tilePartsPerTileFound.get(tile) == number
+                                 for tile, number in tilePartsPerTileExpected.items()))
 
             # Add tile-part tests, characteristics and warnings to tree
             self.tests.appendIfNotEmpty(tilePartTests)
-- 
2.43.0


From d5d8e7815533a8aa8b3a00510014fd5aab50f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:05 +0000
Subject: [PATCH 17/25] fix: tiles outside of the image don't make up for
 missing tiles

---
 jpylyzer/boxvalidator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index bf59dd1..504cd97 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1705,9 +1705,11 @@ class BoxValidator:
                         # not be read)
                         break
 
-            # Length of tileIndices must equal numberOfTilesExpected
+            # Length of tileIndices must equal numberOfTilesExpected, and all
+            # tiles must be part of the image
             self.testFor("foundExpectedNumberOfTiles", len(
-                tileIndices) == numberOfTilesExpected)
+                tileIndices) == numberOfTilesExpected and all(
+                    tile in tilePartsPerTileFound for tile in tileIndices))
 
             # Found numbers of tile	parts per tile must match expected
             if tilePartsPerTileExpected:
-- 
2.43.0


From 3fcfe839feaa6355849faa754901c6e844863af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 18/25] fix: don't generate MIX for raw codestreams

---
 jpylyzer/jpylyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index ce9e749..1752e88 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -443,7 +443,7 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
         warnings.appendChildTagWithText("warning", failureMessage)
         shared.printWarning(failureMessage)
 
-    if mixFlag != 0 and fileIsValid:
+    if mixFlag != 0 and validationFormat in ['jp2', 'jph'] and fileIsValid:
         mixProperties = mix.Mix(mixFlag).generateMix(characteristics)
 
     # Add status info
-- 
2.43.0


From 1a09aa5eb2221ef748a4b2abecb311baed1dab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 19/25] fix: don't fail on MIX for JPH images without
 enumerated colour space

---
 jpylyzer/mix.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 25bde6d..ac99233 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -104,11 +104,13 @@ class Mix:
             mixPI.append(mixColorProfile)
             mixBic.append(mixPI)
         else:
-            mixPI = ET.Element('mix:PhotometricInterpretation')
-            colorSpace = properties.find(
-                'jp2HeaderBox/colourSpecificationBox/enumCS').text
-            mixPI.appendChildTagWithText('mix:colorSpace', colorSpace.strip())
-            mixBic.append(mixPI)
+            # (JPH images may use a parametrized colourspace, or not specify any)
+            enumCS = properties.find(
+                'jp2HeaderBox/colourSpecificationBox/enumCS')
+            if enumCS is not None:
+                mixPI = ET.Element('mix:PhotometricInterpretation')
+                mixPI.appendChildTagWithText('mix:colorSpace', enumCS.text.strip())
+                mixBic.append(mixPI)
         mixBio.append(mixBic)
 
         mixSFC = ET.Element('mix:SpecialFormatCharacteristics')
-- 
2.43.0


From 65a10e6b68331dfb5a1e419b7145dd8a44147280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 20/25] fix: don't fail on MIX for XMP metadata without
 description

---
 jpylyzer/mix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index ac99233..024cef2 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -161,7 +161,10 @@ class Mix:
         if value is not None:
             return value.text
 
-        value = prop.find(prefixPath).attrib.get(ns + tag, None)
+        description = prop.find(prefixPath)
+        if description is None:
+            return None
+        value = description.attrib.get(ns + tag, None)
         if value and value is not None:
             return value
         return None
-- 
2.43.0


From f70cf3aa7d7c84a9b69a9b9dbd1639b91af58aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 21/25] fix: round resolution in MIX instead of truncating it

---
 jpylyzer/mix.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/jpylyzer/mix.py b/jpylyzer/mix.py
index 024cef2..3a49245 100755
--- a/jpylyzer/mix.py
+++ b/jpylyzer/mix.py
@@ -262,26 +262,30 @@ class Mix:
             'jp2HeaderBox/resolutionBox/captureResolutionBox')
         if resolutionBox is not None:
             numX = int(
-                float(
-                    resolutionBox.find('hRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('hRescInPixelsPerMeter').text) *
+                    100))
             numY = int(
-                float(
-                    resolutionBox.find('vRescInPixelsPerMeter').text) *
-                100)
+                round(
+                    float(
+                        resolutionBox.find('vRescInPixelsPerMeter').text) *
+                    100))
         else:
             # Then try the displayResolutionBox
             resolutionBox = properties.find(
                 'jp2HeaderBox/resolutionBox/displayResolutionBox')
             if resolutionBox is not None:
                 numX = int(
-                    float(
-                        resolutionBox.find('hResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('hResdInPixelsPerMeter').text) *
+                        100))
                 numY = int(
-                    float(
-                        resolutionBox.find('vResdInPixelsPerMeter').text) *
-                    100)
+                    round(
+                        float(
+                            resolutionBox.find('vResdInPixelsPerMeter').text) *
+                        100))
         if resolutionBox is not None:
             mixSm = ET.Element('mix:SpatialMetrics')
             if self.mixFlag == 1:
-- 
2.43.0


From 350504628830cf0d35982e6a1f530bd4435d8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 22/25] fix: don't fail on files with a modification date that
 is out of range

---
 jpylyzer/jpylyzer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 1752e88..298f583 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -33,7 +33,6 @@ Contributors:
 
 import sys
 import os
-import time
 import datetime
 import glob
 import argparse
@@ -365,10 +364,10 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except ValueError:
+    except (OverflowError, ValueError):
         # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
-        dt = time.ctime(0)
+        dt = 0
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
     fileInfo.appendChildTagWithText(
         "fileLastModified", lastModifiedDate)
-- 
2.43.0


From 9403179a436694bcab7eefde6fc881168619159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 23/25] fix: remove characters that XML does not allow from
 file names

---
 jpylyzer/jpylyzer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 298f583..42f7ad8 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -353,8 +353,9 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
 
     # If file name / path contain any surrogate pairs, remove them to
     # avoid problems when writing to XML
-    fileNameCleaned = stripSurrogatePairs(fileName)
-    filePathCleaned = stripSurrogatePairs(filePath)
+    # (same for characters that are not allowed in XML)
+    fileNameCleaned = stripIllegalXMLCharacters(stripSurrogatePairs(fileName))
+    filePathCleaned = stripIllegalXMLCharacters(stripSurrogatePairs(filePath))
 
     # Produce some general tool and file meta info
     fileInfo.appendChildTagWithText("fileName", fileNameCleaned)
@@ -512,6 +513,13 @@ def stripSurrogatePairs(ustring):
     return ustring
 
 
+def stripIllegalXMLCharacters(ustring):
+    """Remove characters that are not allowed in XML 1.0 from a Unicode string."""
+    return "".join(ch for ch in ustring if ch in "\t\n\r" or
+                   "\u0020" <= ch <= "\ud7ff" or
+                   "\ue000" <= ch <= "\ufffd" or ch >= "\U00010000")
+
+
 def getFiles(searchpattern):
     """Append paths of all files that match search pattern to EXISTING_FILES."""
     results = glob.glob(searchpattern)
-- 
2.43.0


From ec1e548477865644ae36bc58b31c801fdd7c5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:22 +0000
Subject: [PATCH 24/25] fix: don't report palette values beyond the end of the
 box

The number of entries in a damaged palette box (nE) was trusted, so that a
box of some 260 bytes could give millions of (zero) values and take minutes.
---
 jpylyzer/boxvalidator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jpylyzer/boxvalidator.py b/jpylyzer/boxvalidator.py
index 504cd97..5974f11 100644
--- a/jpylyzer/boxvalidator.py
+++ b/jpylyzer/boxvalidator.py
@@ -1014,6 +1014,10 @@ class BoxValidator:
             offset = nPC + 3 + sum(bytesPaddedCols[0:i])
 
             for _ in range(nE):
+                # Stop at end of box (nE may be wrong)
+                if offset + bytesPaddedCols[i] > len(self.boxContents):
+                    break
+
                 # Get bytes for this entry
                 cPAsBytes = self.boxContents[offset:offset + bytesPaddedCols[i]]
 
-- 
2.43.0


From 6e5d21e7ee2dd3f5820fc9dcbcbedc2ce67fee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:20 +0000
Subject: [PATCH 25/25] fix: do not fail on a file modification date that the C
 library cannot represent

---
 jpylyzer/jpylyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jpylyzer/jpylyzer.py b/jpylyzer/jpylyzer.py
index 42f7ad8..27f207e 100755
--- a/jpylyzer/jpylyzer.py
+++ b/jpylyzer/jpylyzer.py
@@ -365,8 +365,9 @@ def checkOneFile(path, validationFormat=config.VALIDATION_FORMAT,
     try:
         dt = os.path.getmtime(path)
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-    except (OverflowError, ValueError):
-        # Dates earlier than 1 Jan 1970 can raise ValueError on Windows
+    except (OverflowError, ValueError, OSError):
+        # Dates earlier than 1 Jan 1970 can raise ValueError on Windows, dates
+        # that the C library cannot represent raise OSError
         # Workaround: replace by lowest possible value (typically 1 Jan 1970)
         dt = 0
         lastModifiedDate = datetime.datetime.fromtimestamp(dt).isoformat()
-- 
2.43.0

