From d55e846f89ed860137b49b6cd7f382de71cf3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 01/72] fix: Steim encoders corrupt narrow, unsigned, out of
 range or non-integer samples

Differences were taken in the type of the input array, so int16, uint8, etc
wrapped, int64 below -2^31 were not detected, and floats after the first
element of a list were truncated.
---
 src/simplemseed/steim1.py | 26 +++++++++++++-------------
 src/simplemseed/steim2.py | 27 +++++++++++++--------------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index cf44750..81a9c98 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -218,19 +218,19 @@ def encodeSteim1FrameBlock(
             "Offset bigger than samples array: " + offset + " >= " + len(samples)
         )
 
-    # check if numpy array
-    if isinstance(samples, np.ndarray):
-        if len(np.shape(samples)) != 1:
-            raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
-    elif isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
+    # lists and other sequences need the same checks as a numpy array
+    if not isinstance(samples, np.ndarray):
+        samples = np.asarray(samples)
+    if len(np.shape(samples)) != 1:
+        raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
+    if samples.dtype.kind not in "iub":
+        raise SteimException(f"Cannot steim1 compress non-integer samples: {samples.dtype}")
+    if not np.can_cast(samples.dtype, np.int32, casting="safe"):
+        for limit in (np.min(samples), np.max(samples)):
+            if not np.iinfo(np.int32).min <= limit <= np.iinfo(np.int32).max:
+                raise SteimException(f"value in samples, {limit} cannot fit into 32 bit integer")
+    # differences do not fit in narrower, or unsigned, types
+    samples = samples.astype(np.int32)
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index edfc702..aa6dfe0 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -319,20 +319,19 @@ def encodeSteim2FrameBlock(
     if frames < 0:
         raise SteimException("number of frames is  a negative value")
 
-    # check if numpy array
-    # check if numpy array
-    if isinstance(samples, np.ndarray):
-        if len(np.shape(samples)) != 1:
-            raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
-    if isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
+    # lists and other sequences need the same checks as a numpy array
+    if not isinstance(samples, np.ndarray):
+        samples = np.asarray(samples)
+    if len(np.shape(samples)) != 1:
+        raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
+    if samples.dtype.kind not in "iub":
+        raise SteimException(f"Cannot steim2 compress non-integer samples: {samples.dtype}")
+    if not np.can_cast(samples.dtype, np.int32, casting="safe"):
+        for limit in (np.min(samples), np.max(samples)):
+            if not np.iinfo(np.int32).min <= limit <= np.iinfo(np.int32).max:
+                raise SteimException(f"value in samples, {limit} cannot fit into 32 bit integer")
+    # differences do not fit in narrower, or unsigned, types
+    samples = samples.astype(np.int32)
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From 0debcd26016d7e27a2793ba7d7ec92ed3234e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 02/72] fix: codec errors raise TypeError instead of
 SteimException/UnsupportedCompressionType

The message was built by adding a str and an int.
---
 src/simplemseed/seedcodec.py | 2 +-
 src/simplemseed/steim1.py    | 4 ++--
 src/simplemseed/steim2.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 5eecf7c..ecf82c0 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -244,7 +244,7 @@ def encode(data, encoding=None, littleEndian=True):
             encoding = mseed3EncodingFromArrayTypecode(data.typecode, data.itemsize)
         else:
             raise UnsupportedCompressionType(
-                "Unable to guess encoding for data, encoding is " + encoding
+                f"Unable to guess encoding for data, encoding is {encoding}"
             )
     try:
         compCode = arrayTypecodeFromMSeed(encoding)
diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 81a9c98..e7b3b40 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -211,11 +211,11 @@ def encodeSteim1FrameBlock(
         raise SteimException("number of frames is a negative value")
 
     if offset < 0:
-        raise SteimException("Offset cannot be negatuve: " + offset)
+        raise SteimException(f"Offset cannot be negative: {offset}")
 
     if offset >= len(samples):
         raise SteimException(
-            "Offset bigger than samples array: " + offset + " >= " + len(samples)
+            f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
     # lists and other sequences need the same checks as a numpy array
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index aa6dfe0..0aa88d4 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -425,7 +425,7 @@ def encodeSteim2FrameBlock(
             nibble = 2
         else:
             raise SteimException(
-                "Unable to encode " + nbits + " bit difference in Steim2 format"
+                f"Unable to encode {nbits} bit difference in Steim2 format"
             )
 
         word = steimPackWord(diff, nbits, ndiff, bitmask, submask)
-- 
2.43.0


From eb0e9f67dc6dd9cfbaabd024858e9ac2d0f97020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 03/72] fix: Steim decoders return unused words as samples or
 fail with IndexError/OverflowError

Words with a zero nibble after X(0) and X(N) in the first frame hold no data,
but were decoded as differences when more samples were asked for than exist.
---
 src/simplemseed/steim1.py | 20 ++++++++++++--------
 src/simplemseed/steim2.py |  7 +++++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index e7b3b40..91e6166 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -30,7 +30,6 @@ from .steimframeblock import getUint32, getInt32
 
 ONE_BYTE = np.int32(0xFF)
 TWO_BYTE = np.int32(0xFFFF)
-TWO_BITS = np.int32(0x3)
 
 def decodeSteim1(
     dataBytes: bytearray,
@@ -69,6 +68,9 @@ def decodeSteim1(
             # special case for first frame
             lastValue = bias  # assign our X(-1)
 
+            if len(tempSamples) < 4:
+                break  # no differences in first frame
+
             # x0 and xn are in 1 and 2 spots
             start = tempSamples[1]  # X(0) is byte 1 for frame 0
 
@@ -119,17 +121,19 @@ def extractSteim1Samples(
     offset: int,
 ) -> list:
     # get nibbles
-    nibbles = np.int32(getUint32(dataBytes, offset, False))
-    currNibble = np.int32(0)
+    nibbles = getUint32(dataBytes, offset, False)
+    currNibble = 0
     temp = []  # 4 samples * 16 longwords, can't be more than 64
 
     currNum = 0
 
+    headNib = (nibbles >> 30) & 0x03
+    if headNib != 0:
+        raise CodecException(f"nibble bytes must start with 00, but was {headNib:02b}")
+
     for i in range(16):
         # i is the word number of the frame starting at 0
-        shiftBits = np.int32(30 - i * 2)
-        shiftNibble=np.right_shift(nibbles, shiftBits)
-        currNibble = np.bitwise_and(shiftNibble, TWO_BITS)  # count from top to bottom each nibble in W(0)
+        currNibble = (nibbles >> (30 - i * 2)) & 0x03  # count from top to bottom each nibble in W(0)
 
         # Rule appears to be:
         # only check for byte-swap on actual value-atoms, so a 32-bit word in of itself
@@ -141,8 +145,8 @@ def extractSteim1Samples(
         # switch (currNibble):
         if currNibble == 0:
             #  ("0 means header info")
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info if offset is 0, W(0) to W(2), later words are unused
+            if offset == 0 and i < 3:
                 temp.append(getInt32(dataBytes, offset + i * 4, False))
                 currNum += 1
         elif currNibble == 1:
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 0aa88d4..3aa656c 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -97,6 +97,9 @@ def decodeSteim2(
             # special case for first frame
             lastValue = bias  # assign our X(-1)
 
+            if len(tempSamples) < 4:
+                break  # no differences in first frame
+
             # x0 and xn are in 1 and 2 spots
             start = tempSamples[1]  # X(0) is byte 1 for frame 0
 
@@ -171,8 +174,8 @@ def extractSteim2Samples(
         # switch (currNibble):
         if currNibble == 0:
             # "0 means header info"
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info if offset is 0, W(0) to W(2), later words are unused
+            if offset == 0 and i < 3:
                 temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
                 currNum += 1
 
-- 
2.43.0


From 550a638cad7712a9535f596d7b5291be3c731847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 04/72] fix: mseed3 silently changes samples that do not fit
 the integer encoding

int64 below -2^31 wrapped, and floats in a list were truncated.
---
 src/simplemseed/mseed3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f160ab2..75c469b 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -362,8 +362,9 @@ class MSeed3Record:
             # special case for int64
             if np.issubdtype(data.dtype, np.integer) and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
-                if abs(np.max(data)) > np.iinfo(np.int32).max:
-                    raise Miniseed3Exception(f"max value of numpy array, {np.max(data)} cannot fit into 32 bit integer")
+                for limit in (np.min(data, initial=0), np.max(data, initial=0)):
+                    if not np.iinfo(np.int32).min <= limit <= np.iinfo(np.int32).max:
+                        raise Miniseed3Exception(f"value of numpy array, {limit} cannot fit into 32 bit integer")
                 data = data.astype(np.int32)
 
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
@@ -377,6 +378,8 @@ class MSeed3Record:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            if np.issubdtype(self._data.dtype, np.integer) and not np.array_equal(self._data, data):
+                raise Miniseed3Exception(f"list values cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
         else:
-- 
2.43.0


From 40fb2e83e12855255c17b8e6ae1e10a28ba2c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 05/72] fix: mseed3 record from big endian primitive data
 segment is byte swapped

---
 src/simplemseed/mseed3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 75c469b..f6a34dd 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -19,6 +19,7 @@ from .seedcodec import (
     mseed3EncodingFromArrayTypecode,
     mseed3EncodingFromNumpyDT,
     numpyDTFromMseed3Encoding,
+    isPrimitiveCompression,
     UnsupportedCompressionType,
     BIG_ENDIAN,
     LITTLE_ENDIAN,
@@ -342,7 +343,11 @@ class MSeed3Record:
             encoding = 0
             numSamples = 0
         elif isinstance(data, EncodedDataSegment):
-            self._data = data.dataBytes
+            if isPrimitiveCompression(data.compressionType) and not data.littleEndian:
+                # mseed3 primitive data is always little endian
+                self._data = data.decode()
+            else:
+                self._data = data.dataBytes
             encoding = data.compressionType
             numSamples = data.numSamples
         elif isinstance(data, (bytes, bytearray)):
-- 
2.43.0


From b3c54c1d399823d8081ebfa9b05366192b0bcaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 06/72] fix: mseed3 record cannot be used after del of its
 extra headers

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f6a34dd..d9b4579 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -424,7 +424,7 @@ class MSeed3Record:
 
     @eh.deleter
     def eh(self):
-        del self._eh
+        self._eh = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
-- 
2.43.0


From 74fad89dd85507a6acd8b252cece04e638683578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 07/72] fix: mseed3 start time raises ValueError on a leap
 second

---
 src/simplemseed/mseed3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index d9b4579..365bdca 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -238,12 +238,12 @@ class MSeed3Header:
             1,
             hour=self.hour,
             minute=self.minute,
-            second=self.second,
             microsecond=int(self.nanosecond / 1000),
             tzinfo=timezone.utc,
         )
         # start Jan 1, so shift by dayOfYear minus 1
-        doyMinusOne = timedelta(days=self.dayOfYear - 1)
+        # second is not in datetime() as may be 60 for a leap second
+        doyMinusOne = timedelta(days=self.dayOfYear - 1, seconds=self.second)
         return st + doyMinusOne
 
     @starttime.setter
-- 
2.43.0


From 038df96890659453cff7893d9776e9862a94bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 08/72] fix: ZeroDivisionError on mseed3 record with sample
 rate of zero

---
 src/simplemseed/mseed3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 365bdca..03043b3 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -181,6 +181,8 @@ class MSeed3Header:
     @property
     def samplePeriod(self):
         """ Sampling as a period, number of seconds between samples."""
+        if self.sampleRatePeriod == 0:
+            return 0
         return (
             -1 * self.sampleRatePeriod
             if self.sampleRatePeriod < 0
-- 
2.43.0


From 80fbb32809b5fb8a1b8cb0c39d6dfea22d750287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 09/72] fix: mseed3 merge joins records of different sample
 rate, or that overlap

---
 src/simplemseed/mseed3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 03043b3..e673e5a 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -827,7 +827,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     """
     out = True
     out = out and ms3a.identifier == ms3b.identifier
-    out = out and ms3b.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
+    out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
     out = out and ms3a.endtime < ms3b.starttime
@@ -837,7 +837,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
         )
         out = (
             out
-            and (ms3b.starttime - predNextStart).total_seconds()
+            and abs((ms3b.starttime - predNextStart).total_seconds())
             < ms3a.header.samplePeriod * timeTolFactor
         )
     return out
-- 
2.43.0


From 0c26dae6e06aa701f422545538ffc2a0779a05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 10/72] fix: records out of order when reading mseed3 with
 merge and an encoding that cannot be merged

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index e673e5a..f124f04 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -807,6 +807,10 @@ def readMSeed3Records(
                 else:
                     prev = mlist[0]
             else:
+                if prev is not None:
+                    # cannot be merged, but came before
+                    yield prev
+                    prev = None
                 yield ms3
         else:
             # failed match, can skip ahead to next record
-- 
2.43.0


From 3970d9d8e7a856a11f5c5a88a37c38369a94cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 11/72] fix: mseed3 merge of record with padded payload gives
 wrong samples

---
 src/simplemseed/mseed3.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f124f04..a9c2dee 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -866,15 +866,17 @@ def mseed3merge(ms3a: MSeed3Record, ms3b: MSeed3Record) -> list[MSeed3Record]:
     elif ms3a is None and ms3b is None:
         # maybe should raise instead???
         out = [None]
-    elif ms3a.header.encoding == 0 or ms3a.header.encoding > 5:
+    elif not isPrimitiveCompression(ms3a.header.encoding):
         # only primitve encoding currently are mergable
         pass
     elif areCompatible(ms3a, ms3b):
         header = ms3a.header.clone()
         header.numSamples += ms3b.header.numSamples
+        itemsize = np.dtype(numpyDTFromMseed3Encoding(header.encoding)).itemsize
         encodedDataBytes = bytearray()
-        encodedDataBytes.extend(ms3a.encodedDataBytes())
-        encodedDataBytes.extend(ms3b.encodedDataBytes())
+        for ms3 in (ms3a, ms3b):
+            # payload may be longer than the samples
+            encodedDataBytes.extend(ms3.encodedDataBytes()[:itemsize * ms3.header.numSamples])
         if ms3a.hasExtraHeaders():
             eh = json.loads(json.dumps(ms3a.eh))
         else:
-- 
2.43.0


From 1b8ef4cea5a81c5c7e4d0efd4d406ada13336e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 12/72] fix: miniseed2 sample rate factor and multiplier are
 signed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 639fb8b..c702bf5 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -573,7 +573,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr,
         dataOffset,
         blocketteOffset,
-    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHHHBBBBiHH", recordBytes[0:48])
+    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", recordBytes[0:48])
     if endianChar == ">":
         byteorder = BIG_ENDIAN
     else:
-- 
2.43.0


From 79b00bbf526a9cd1ffa9eccf3b87c7cf1313fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 13/72] fix: miniseed2 blockette 100 is 12 bytes with float
 sample rate, create 100 and 1001 with correct number

---
 src/simplemseed/miniseed.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index c702bf5..077f297 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -435,18 +435,18 @@ class MiniseedRecord:
 
     def packB100(self, recordBytes, offset, b):
         struct.pack_into(
-            self.header.endianChar + "HHixxxx",
+            self.header.endianChar + "HHfxxxx",
             recordBytes,
             offset,
             b.blocketteNum,
             b.nextOffset,
             b.sampleRate,
         )
-        return offset + 8
+        return offset + 12
 
     def createB100(self):
         return Blockette100(
-            1000,
+            100,
             0,
             self.header.sampleRate,
         )
@@ -489,7 +489,7 @@ class MiniseedRecord:
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
-            1000,
+            1001,
             0,
             0,  # time quality
             microseconds,  # microseconds
@@ -633,7 +633,7 @@ def unpackBlockette(recordBytes, offset, endianChar, dataOffset):
 def unpackBlockette100(recordBytes, offset, endianChar):
     """named Tuple of blocketteNum, nextOffset, sample rate"""
     blocketteNum, nextOffset, sampRate = struct.unpack(
-        endianChar + "HHixxxx", recordBytes[offset : offset + 12]
+        endianChar + "HHfxxxx", recordBytes[offset : offset + 12]
     )
     return Blockette100(blocketteNum, nextOffset, sampRate)
 
-- 
2.43.0


From a84007bb9f9a46792661d24019ba766e8787a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 14/72] fix: miniseed2 blockettes after the first are lost as
 next blockette offset is not updated

---
 src/simplemseed/miniseed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 077f297..14603c7 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -399,8 +399,12 @@ class MiniseedRecord:
             # make sure we have a b1000 to be valid miniseed
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
-        for b in self.blockettes:
+        for i, b in enumerate(self.blockettes):
+            bOffset = offset
             offset = self.packBlockette(recordBytes, offset, b)
+            # next offset may not be as read or created, last is zero
+            nextOffset = offset if i < len(self.blockettes) - 1 else 0
+            struct.pack_into(self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset)
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
-- 
2.43.0


From 923ea43014d8324b7b371efab5ab4b4752c9da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 15/72] fix: miniseed2 blockettes after 1000 are byte swapped
 if data byte order is not same as header

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 14603c7..d344b06 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -748,8 +748,8 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     blockettes.append(b)
                     if type(b).__name__ == "Blockette1000":
                         header.encoding = b.encoding
+                        # byte order of data, header and blockettes may differ
                         header.byteorder = b.byteorder
-                        endianChar = "<" if header.byteorder == LITTLE_ENDIAN else ">"
                         header.recordLengthExp = b.recLength
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
-- 
2.43.0


From 8079cfbd946b78e70453b3b4dee7d43525448f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 16/72] fix: miniseed2 data quality, flags and time correction
 are lost on pack

---
 src/simplemseed/miniseed.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index d344b06..d4bc526 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -162,7 +162,7 @@ class MiniseedHeader:
             header,
             0,
             seq,
-            b"D",
+            self.dataquality.ljust(1).encode("UTF-8"),
             b" ",
             sta,
             loc,
@@ -175,12 +175,17 @@ class MiniseedHeader:
         if self.sampleRate != 0 and self.sampRateFactor == 0 and self.sampRateMult == 0:
             tempsampRateFactor, tempsampRateMult = self.calcSeedMultipilerFactor()
         struct.pack_into(
-            self.endianChar + "Hhh",
+            self.endianChar + "HhhBBBBi",
             header,
             30,
             self.numSamples,
             tempsampRateFactor,
             tempsampRateMult,
+            self.actFlag,
+            self.ioFlag,
+            self.qualFlag,
+            self.numBlockettes,
+            self.timeCorr,
         )
         return header
 
-- 
2.43.0


From d6d6842eccd7c71eeecd05ed52afaaa1f9069e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 17/72] fix: miniseed2 pack of compressed record fails after
 decompress(), or makes a record longer than its record length

---
 src/simplemseed/miniseed.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index d4bc526..ca61529 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -293,6 +293,7 @@ class MiniseedRecord:
             self.blockettes = []
         self._data = None
         if data is not None:
+            self.encodedDataBytes = None
             self._internal_set_data(data)
 
     def _internal_set_data(self, data):
@@ -414,7 +415,11 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
-        if self.encodedDataBytes is not None and self._data is None:
+        if self.encodedDataBytes is not None:
+            if len(recordBytes) < offset + len(self.encodedDataBytes):
+                raise MiniseedException(
+                    f"not enough bytes in record to fit data: byte:{len(recordBytes):d} offset: {offset:d} len(encodedDataBytes): {len(self.encodedDataBytes):d}"
+                )
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From 49d9757d985e68197b21886e177f5a87252a9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 18/72] fix: miniseed2 start time drifts by blockette 1001
 microseconds when repacked

---
 src/simplemseed/miniseed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ca61529..1ebb21f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -395,6 +395,12 @@ class MiniseedRecord:
         recordBytes[0:48] = self.header.pack()
 
         offset = 48
+        for b in self.blockettes:
+            if type(b).__name__ == "Blockette1001":
+                # start time includes microseconds from blockette 1001, fixed header does not
+                self.header.packBTime(
+                    recordBytes, self.header.starttime - timedelta(microseconds=b.microseconds)
+                )
         struct.pack_into(self.header.endianChar + "H", recordBytes, 46, offset)
         hasB1000 = False
         for b in self.blockettes:
-- 
2.43.0


From ee3431f9ce089f22fa02940c8b6224e9e8eb39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 19/72] fix: miniseed2 codes too long for header are silently
 truncated

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1ebb21f..5f91cf4 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -157,6 +157,9 @@ class MiniseedHeader:
         loc = self.location.ljust(2).encode("UTF-8")
         chan = self.channel.ljust(3).encode("UTF-8")
         seq = ("%06d" % self.sequence_number).encode("UTF-8")
+        for val, size in ((net, 2), (sta, 5), (loc, 2), (chan, 3), (seq, 6)):
+            if len(val) > size:
+                raise MiniseedException(f"{val} too long for header, max {size}")
         struct.pack_into(
             self.endianChar + "6scc5s2s3s2s",
             header,
-- 
2.43.0


From ab4f5c7c97fbc67f38e415ead03789efa2742f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 20/72] fix: ZeroDivisionError reading miniseed2 with zero
 sample rate factor, multiplier or blockette 100

---
 src/simplemseed/miniseed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 5f91cf4..7e4685f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -100,7 +100,7 @@ class MiniseedHeader:
 
         self.sampRateFactor = sampRateFactor
         self.sampRateMult = sampRateMult
-        if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
+        if sampleRate == 0 and sampRateFactor != 0 and sampRateMult != 0:
             # calc sampleRate from sampRateFactor and sampRateMult
             if sampRateFactor > 0:
                 if sampRateMult > 0:
@@ -234,7 +234,7 @@ class MiniseedHeader:
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
         self.sampPeriod = timedelta(
-            microseconds=MICRO / self.sampleRate
+            microseconds=MICRO / self.sampleRate if self.sampleRate != 0 else 0
         )  # Nominal sample period (Sec) */
 
     def setStartTime(self, starttime):
-- 
2.43.0


From 1de9340d1e70ee44093329c661cc2f50c0927301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 21/72] fix: miniseed2 sample rate above 32766, or below
 1/32765, is written as zero

---
 src/simplemseed/miniseed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 7e4685f..4ccf000 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -200,6 +200,14 @@ class MiniseedHeader:
         if self.sampleRate == 0:
             factor = 0
             divisor = 0
+        elif self.sampleRate > SHORT_MAX_VALUE - 1:
+            # too big for factor, so both positive, rate is factor times multiplier
+            divisor = math.ceil(self.sampleRate / (SHORT_MAX_VALUE - 2))
+            factor = round(self.sampleRate / divisor)
+        elif 0 < self.sampleRate * (SHORT_MAX_VALUE - 2) < 1:
+            # period too big for factor, so both negative, period is factor times multiplier
+            divisor = -1 * math.ceil(1 / (self.sampleRate * (SHORT_MAX_VALUE - 2)))
+            factor = round(1 / (self.sampleRate * divisor))
         elif self.sampleRate >= 1:
             # don't get too close to the max for a short, use ceil as neg
             divisor = math.ceil((SHORT_MIN_VALUE + 2) / self.sampleRate)
-- 
2.43.0


From 6a40a0690a499405ab2b6d7a3f91a402a17bf6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 22/72] fix: miniseed2 start time raises ValueError on a leap
 second

---
 src/simplemseed/miniseed.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 4ccf000..8f3bad0 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -272,10 +272,9 @@ class MiniseedHeader:
                 1,
                 hour=self.btime.hour,
                 minute=self.btime.minute,
-                second=self.btime.second,
                 microsecond=100 * self.btime.tenthMilli,
                 tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1)
+            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
-- 
2.43.0


From f31dee8eaa8927f4657b84572b65bb2fc99319a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 23/72] fix: miniseed2 silently truncates floats in a list
 given for an integer encoding

---
 src/simplemseed/miniseed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 8f3bad0..af1ed6d 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -345,6 +345,8 @@ class MiniseedRecord:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            if np.issubdtype(self._data.dtype, np.integer) and not np.array_equal(self._data, data):
+                raise MiniseedException(f"list values cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
             byteorder = LITTLE_ENDIAN if sys.byteorder == "little" else BIG_ENDIAN
-- 
2.43.0


From 1a9499f1685719c6a120c2dbf1cb1fb550670d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 24/72] fix: reading miniseed2 blockette 1001 changes btime, so
 microseconds are added twice in mseed2to3

---
 src/simplemseed/miniseed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index af1ed6d..1fe9144 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -784,9 +784,8 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     elif type(b).__name__ == "Blockette100":
                         header.setSampleRate(b.sampleRate)
                     elif type(b).__name__ == "Blockette1001":
-                        header.setStartTime(
-                            header.starttime + timedelta(microseconds=b.microseconds)
-                        )
+                        # btime remains as in fixed header
+                        header.starttime += timedelta(microseconds=b.microseconds)
                     prevBOffset += len(blocketteBytes)
                     numRecBytesRead += len(blocketteBytes)
                 except struct.error as e:
-- 
2.43.0


From 01b01cf9d5300767336487a9c0710f4cd9eb085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 25/72] fix: miniseed2 blockettes not found if not directly
 after fixed header

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1fe9144..bb97926 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -749,6 +749,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
         foundB1000 = None
         if header.numBlockettes > 0:
             blocketteNextOffset = header.blocketteOffset
+            if blocketteNextOffset > numRecBytesRead:
+                # skip gap between fixed header and first blockette
+                numRecBytesRead += len(fileptr.read(blocketteNextOffset - numRecBytesRead))
             prevBOffset = blocketteNextOffset
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
-- 
2.43.0


From 97a445d7467885bb4283c6c9caced9bf7698295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 26/72] fix: malformed miniseed2 lengths cause rest of file to
 be read as one record

---
 src/simplemseed/miniseed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index bb97926..16d3b45 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -769,6 +769,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         numBytesToRead = header.dataOffset-prevBOffset-4
                     else:
                         numBytesToRead = header.recordLength-prevBOffset-4
+                    if numBytesToRead < 0:
+                        raise MiniseedException(
+                            f"blockette offset outside of record: {prevBOffset:d} data: {header.dataOffset:d} {header.recordLength:d}"
+                        )
                     blocketteBytes = blocketteFourBytes + fileptr.read(numBytesToRead)
                     b = unpackBlockette(
                         blocketteBytes,
@@ -797,6 +801,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     )
                     raise
         encodedDataBytes = None
+        if header.recordLength < max(header.dataOffset, numRecBytesRead):
+            raise MiniseedException(
+                f"record length less than offset to data: {header.recordLength:d} < {header.dataOffset:d} {numRecBytesRead:d}"
+            )
         if header.dataOffset > 0:
             if header.dataOffset < numRecBytesRead:
                 raise MiniseedException(
-- 
2.43.0


From c1c3eff9af1351acc5d48cca32fcd3cdbb40d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 27/72] fix: miniseed2 record without data and shorter than 512
 bytes reads into following record

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 16d3b45..e094390 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -767,6 +767,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
+                    elif _blocketteNum == 1000:
+                        # record length not yet known
+                        numBytesToRead = B1000_SIZE-4
                     else:
                         numBytesToRead = header.recordLength-prevBOffset-4
                     if numBytesToRead < 0:
-- 
2.43.0


From 69e2a1b85e9e452f235ba157230b10b4ff4fb5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 28/72] fix: miniseed2 blockettes can make a record longer than
 its record length

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index e094390..cd20fd9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -429,6 +429,10 @@ class MiniseedRecord:
             # next offset may not be as read or created, last is zero
             nextOffset = offset if i < len(self.blockettes) - 1 else 0
             struct.pack_into(self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset)
+        if offset > len(recordBytes) or len(recordBytes) != self.header.recordLength:
+            raise MiniseedException(
+                f"not enough bytes in record to fit blockettes: {self.header.recordLength} offset: {offset:d}"
+            )
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
-- 
2.43.0


From 3fbbb6829e3106f2aa2113544247a3dbd5d65d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 29/72] fix: mseed2to3 byte swaps samples of big endian
 uncompressed records

---
 src/simplemseed/mseed2to3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0ea4919..ceea34a 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -53,7 +53,7 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2.encodedDataBytes is not None:
         if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
             # need to decompress to byte swap primitive array
-            data = ms2.decompressed().byteswap()
+            data = ms2.decompressed()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From efb08305f008c822f8becdf6c4fd9bec402fa2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 30/72] fix: mseed2to3 flags are wrong bits, or too big to pack

mseed3 bit 0 is calibration, activity bit 0, bit 1 is time tag questionable,
quality bit 7, and bit 2 is clock locked, io and clock bit 5.
---
 src/simplemseed/mseed2to3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index ceea34a..b99cc0f 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -19,7 +19,7 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms2H = ms2.header
     ms3Header.flags = (
-        (ms2H.actFlag & 1) * 2 + (ms2H.ioFlag & 64) * 4 + (ms2H.qualFlag & 16) * 8
+        (ms2H.actFlag & 1) + (ms2H.qualFlag >> 7 & 1) * 2 + (ms2H.ioFlag >> 5 & 1) * 4
     )
     ms3Header.publicationVersion = 0
 
-- 
2.43.0


From 063ecc13b666f4e0af8c2cedb427b2afd1fc1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 31/72] fix: mseed2to3 start time ignores microseconds without
 time quality, and overflows nanosecond

---
 src/simplemseed/mseed2to3.py | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index b99cc0f..628ae79 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -1,5 +1,6 @@
 
 import argparse
+from datetime import timedelta
 import json
 import sys
 
@@ -23,12 +24,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     )
     ms3Header.publicationVersion = 0
 
-    ms3Header.year = ms2H.btime.year
-    ms3Header.dayOfYear = ms2H.btime.yday
-    ms3Header.hour = ms2H.btime.hour
-    ms3Header.minute = ms2H.btime.minute
-    ms3Header.second = ms2H.btime.second
-    ms3Header.nanosecond = ms2H.btime.tenthMilli * 100000
+    # includes microseconds from blockette 1001
+    ms3Header.starttime = ms2H.starttime
+    if ms2H.btime.second == 60:
+        # keep leap second as 60, not zero of next minute
+        ms3Header.starttime = ms2H.starttime - timedelta(seconds=1)
+        ms3Header.second += 1
     if ms2.header.sampleRate == 0:
         ms3Header.sampleRatePeriod = 0
     else:
@@ -68,7 +69,6 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2H.dataquality != 0 and ms2H.dataquality != "D":
         fdsnExtras["DataQuality"] = ms2H.dataquality
         ms3Extras["FDSN"] = fdsnExtras
-    nanos = 0
     for b in ms2.blockettes:
         if b.blocketteNum == 100:
             ms3Header.sampleRatePeriod = b.sampleRate
@@ -76,31 +76,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             if "Time" not in fdsnExtras:
                 fdsnExtras["Time"] = {}
             fdsnExtras["Time"]["Quality"] = b.timeQuality
-            nanos = 1000 * b.microseconds
 
     if ms2H.btime.second == 60:
         if "Time" not in fdsnExtras:
             fdsnExtras["Time"] = {}
         fdsnExtras["Time"]["LeapSecond"] = 1
 
-    ms3Header.nanosecond += nanos
-    if ms3Header.nanosecond < 0:
-        ms3Header.second -= 1
-        ms3Header.nanosecond += 1000000000
-        if ms3Header.second < 0:
-            # might be wrong for leap seconds
-            ms3Header.second += 60
-            ms3Header.minute -= 1
-            if ms3Header.minute < 0:
-                ms3Header.minute += 60
-                ms3Header.hour -= 1
-                if ms3Header.hour < 0:
-                    ms3Header.hour += 24
-                    ms3Header.dayOfYear = -1
-                    if ms3Header.dayOfYear < 0:
-                        # wrong for leap years
-                        ms3Header.year -= 1
-                        ms3Header.dayOfYear += 365 if ms3Header.year % 4 != 0 else 366
     if len(fdsnExtras) > 0:
         ms3Extras["FDSN"] = fdsnExtras
     if len(ms3Extras) == 0:
-- 
2.43.0


From baaea296fc9ee3e5be8a8a72cd4463db0a634257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 32/72] fix: mseed2to3 command fails, version is not an
 argument value

---
 src/simplemseed/mseed2to3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 628ae79..e36b528 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -126,9 +126,6 @@ def do_parseargs():
 def main():
 
     args = do_parseargs()
-    if args.version:
-        print(f"mseed2to3 Version {VERSION}")
-        return 0
     bytesWritten = 0
     with args.ms2 as inms2:
         with args.ms3 as outms3:
-- 
2.43.0


From 68aadc8c6bc6756123ae29be6487c1a84f77d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 33/72] fix: mseed2to3 fails on records without samples

---
 src/simplemseed/mseed2to3.py | 3 +++
 src/simplemseed/seedcodec.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index e36b528..0807c6e 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -60,6 +60,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             data = ms2.encodedDataBytes
     else:
         data = ms2.decompressed()
+    if data is None:
+        # no payload
+        ms3Header.encoding = 0
     identifier = FDSNSourceId.fromNslc(
         ms2H.network, ms2H.station, ms2H.location, ms2H.channel
     )
diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index ecf82c0..9f72f01 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -286,6 +286,8 @@ def decompress(
     # set to 0, which messes up the decompresser even though it doesn't matter since there is no data.
     if numSamples == 0:
         dt = np.dtype("<i4")
+        if isPrimitiveCompression(compressionType):
+            dt = np.dtype(numpyDTFromMseed3Encoding(compressionType))
         return np.asarray([], dt)
 
     # switch (compressionType):
-- 
2.43.0


From c1f708978a61a03d52858c2a850407844785b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 34/72] fix: mseed2to3 byte swaps samples of big endian DWWSSN
 records

---
 src/simplemseed/mseed2to3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0807c6e..965a5fc 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -7,7 +7,7 @@ import sys
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
 from .fdsnsourceid import FDSNSourceId
-from .seedcodec import isPrimitiveCompression, BIG_ENDIAN
+from .seedcodec import isPrimitiveCompression, BIG_ENDIAN, DWWSSN, SHORT
 from .version import VERSION
 
 
@@ -55,6 +55,10 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
         if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
             # need to decompress to byte swap primitive array
             data = ms2.decompressed()
+        elif b1000.encoding == DWWSSN:
+            # mseed3 has no DWWSSN, but same as big or little endian short
+            ms3Header.encoding = SHORT
+            data = ms2.decompressed()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From 450e37a2819ef938b51975384269c840245f28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 35/72] fix: mseed3details --set with --match deletes records
 that do not match from the file

---
 src/simplemseed/mseed3details.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 27616a5..d9e939c 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -4,6 +4,7 @@ import argparse
 from datetime import datetime
 import json
 import os
+import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -111,12 +112,15 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
     usePointer = len(setptr) > 1
+    matchPat = re.compile(matchsid) if matchsid is not None else None
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-                for ms3 in readMSeed3Records(inms3file, matchsid=matchsid):
-                    if looking or setall:
+                # all records need to be written, even if not matched
+                for ms3 in readMSeed3Records(inms3file):
+                    matched = matchPat is None or matchPat.search(ms3.identifier) is not None
+                    if matched and (looking or setall):
                         looking = False
                         # only set in first record
                         if usePointer:
-- 
2.43.0


From 66509ffe5a92f86b5ddd395008a46f7acdf1b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 36/72] fix: mseed3details --set to replace all extra headers
 does nothing

---
 src/simplemseed/mseed3details.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index d9e939c..6a7bb23 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -128,6 +128,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                         else:
                             # replace all
                             ehptr = setjson
+                            ms3.eh = setjson
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From f8f56828f1371d0bf3cdc9c7127aa07ec60a5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 37/72] fix: FDSNSourceId with location None is printed with
 None as location code

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d214a5e..14fa38c 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -148,6 +148,8 @@ class FDSNSourceId:
             self.networkCode = networkCode.networkCode
         else:
             self.networkCode = networkCode
+        if locationCode is None:
+            locationCode = ""
         self.stationCode = stationCode
         self.locationCode = locationCode
         self.bandCode = bandCode
-- 
2.43.0


From 8640c48012ec52e2e23f63cd17b3cfde04b52f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 38/72] fix: sourceid validate accepts non-ASCII digits

---
 src/simplemseed/fdsnsourceid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 14fa38c..d72d873 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -14,29 +14,29 @@ from .version import VERSION
 
 
 
-TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]")
+TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]", re.ASCII)
 """
 Older SEED style temp networks, like XD. Starts with XYZ or a digit.
 """
 
-TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}")
+TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}", re.ASCII)
 """
 Mapping of older SEED style temp networks to include start year,
 like XD maps to XD1994. Starts with XYZ or a digit and ends with 4 digit year.
 """
 
-TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}")
+TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}", re.ASCII)
 """
 Network codes for temporary networks convention, ends with 4 digit year.
 """
 
-NET_VALID = re.compile(r"[A-Z\d]{1,8}")
+NET_VALID = re.compile(r"[A-Z\d]{1,8}", re.ASCII)
 "Regular expression for network code"
-STATION_VALID = re.compile(r"[A-Z\d-]{1,8}")
+STATION_VALID = re.compile(r"[A-Z\d-]{1,8}", re.ASCII)
 "Regular expression for station code"
-LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}")
+LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}", re.ASCII)
 "Regular expression for location code"
-SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+") # current spec has no length restrictions
+SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+", re.ASCII) # current spec has no length restrictions
 "Regular expression for source and subsource codes"
 
 FDSN_PREFIX = "FDSN:"
-- 
2.43.0


From d22014926890ad5b86864a48f9aca1e7d89c1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 39/72] fix: fromNslc puts separators or trailing text into
 codes, and fails on empty band code

---
 src/simplemseed/fdsnsourceid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d72d873..c2d873d 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -228,20 +228,21 @@ class FDSNSourceId:
         Optionally give the start year of the network, which will be appended
         if it is a SEED-style temporary network like XD.
         """
-        if len(channelCode) == 3:
+        if len(channelCode) == 3 and SEP not in channelCode:
             band = channelCode[0]
             source = channelCode[1]
             subsource = channelCode[2]
         else:
-            b_s_ss = r"(\w)_(\w+)_(\w*)"
-            match = re.match(b_s_ss, channelCode)
+            # codes do not contain separator, band may be empty
+            b_s_ss = r"([^\W_]?)_([^\W_]+)_([^\W_]*)"
+            match = re.fullmatch(b_s_ss, channelCode)
             if match:
                 band = match[1]
                 source = match[2]
                 subsource = match[3]
             else:
                 raise FDSNSourceIdException(
-                    f"channel code must be length 3 or have 3 items separated by '{SEP}', first len 1, last may be missing: {channelCode}"
+                    f"channel code must be length 3 or have 3 items separated by '{SEP}', first max len 1, first and last may be missing: {channelCode}"
                 )
         netId = NetworkSourceId(net, startYear)
 
-- 
2.43.0


From 8f695416c068dabe479948e9d0b37a1b8e78c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 40/72] fix: parseNslc ignores items after the channel, fails
 on B_AA_QW style channel with _ separator

---
 src/simplemseed/fdsnsourceid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index c2d873d..508b676 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -255,7 +255,8 @@ class FDSNSourceId:
         location, channel, wheret the 4 sections are separated by the given
         separator, which defaults to a dot, '.'.
         """
-        items = nslc.split(sep)
+        # separator may also be within the channel code
+        items = nslc.split(sep, 3)
         if len(items) < 4:
             raise FDSNSourceIdException(
                 f"channel nslc must have 4 items separated by '{sep}': {nslc}"
-- 
2.43.0


From 1ae2bcdedef29a1fa593191606dd539c214cec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 41/72] fix: band code for response lower bound of exactly 10
 seconds is broadband

Band codes with response lower bound are defined as >= 10 sec, in bandcode.json
---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 508b676..1a83488 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -564,19 +564,19 @@ def bandCodeForRate(
     if sampRate >= 5000:
         return "J"
     if 1000 <= sampRate < 5000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "F"
         return "G"
     if 250 <= sampRate < 1000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "C"
         return "D"
     if 80 <= sampRate < 250:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "H"
         return "E"
     if 10 <= sampRate < 80:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "B"
         return "S"
     if 1 < sampRate < 10:
-- 
2.43.0


From 7d62749747a0cb36440a4eecceb1012d5f2dc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 42/72] fix: fdsnsourceid command fails on abbreviated source
 ids and unlisted codes

---
 src/simplemseed/fdsnsourceid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 1a83488..5081afc 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -752,10 +752,18 @@ def main():
         sid = FDSNSourceId.parse(a)
         print(f"      {sid}")
         print(f"       Net: {sid.networkCode}")
+        if isinstance(sid, NetworkSourceId):
+            continue
         print(f"       Sta: {sid.stationCode}")
+        if isinstance(sid, StationSourceId):
+            continue
         print(f"       Loc: {sid.locationCode}")
-        print(f"      Band: {sid.bandCode} - {bandCodeDescribe(sid.bandCode)}")
-        print(f"    Source: {sid.sourceCode} - {sourceCodeDescribe(sid.sourceCode)}")
+        if isinstance(sid, LocationSourceId):
+            continue
+        bandD = bandCodeDescribe(sid.bandCode) if sid.bandCode in BAND_CODE_JSON else "Unknown"
+        print(f"      Band: {sid.bandCode} - {bandD}")
+        sourceD = sourceCodeDescribe(sid.sourceCode) if sid.sourceCode in SOURCE_CODE_JSON else "Unknown"
+        print(f"    Source: {sid.sourceCode} - {sourceD}")
         print(f" Subsource: {sid.subsourceCode}")
 
 
-- 
2.43.0


From d93cf4e4356f86f3b011241221cfd42475d8fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 43/72] fix: decompressedRecord shares extra headers and
 samples with the original record

---
 src/simplemseed/mseed3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index a9c2dee..86f93db 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -478,10 +478,12 @@ class MSeed3Record:
         Create a new record with decompressed data and the header encoding
         set to one of the primitive types: short, int, float or double
         """
-        data = self.decompress()
+        # copies, so changes do not affect this record
+        data = np.array(self.decompress())
         header = self.header.clone()
         header.encoding = mseed3EncodingFromNumpyDT(data.dtype)
-        return MSeed3Record(header, self.identifier, data, self._eh)
+        eh = json.loads(json.dumps(self._eh)) if isinstance(self._eh, dict) else self._eh
+        return MSeed3Record(header, self.identifier, data, eh)
 
     @property
     def starttime(self):
-- 
2.43.0


From b284d1a1b1e768f6925a4eb89821638b265a6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 44/72] fix: merge compares identifier values, string or
 FDSNSourceId

---
 src/simplemseed/mseed3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 86f93db..dc2d507 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -832,7 +832,8 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     version, and that the record times are adjacent.
     """
     out = True
-    out = out and ms3a.identifier == ms3b.identifier
+    # identifier may be string or FDSNSourceId
+    out = out and str(ms3a.identifier) == str(ms3b.identifier)
     out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
-- 
2.43.0


From 8b4b853321129e36033348216c8fc08ff3cbee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 45/72] fix: miniseed2 end time without adding up rounding of
 sample period

---
 src/simplemseed/miniseed.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index cd20fd9..5af0178 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -394,10 +394,16 @@ class MiniseedRecord:
         return self.header.starttime
 
     def endtime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples - 1)
+        return self._time_of_sample(self.header.numSamples - 1)
 
     def next_starttime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples)
+        return self._time_of_sample(self.header.numSamples)
+
+    def _time_of_sample(self, num):
+        if self.header.sampleRate == 0:
+            return self.starttime()
+        # sampPeriod is rounded to microseconds, which adds up over the samples
+        return self.starttime() + timedelta(seconds=num / self.header.sampleRate)
 
     def clone(self):
         return unpackMiniseedRecord(self.pack())
-- 
2.43.0


From 3003f8f0d84d77dd32411585d55e0d84383afca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 46/72] fix: miniseed2 pack starts steim data at multiple of 64
 bytes after blockettes

---
 src/simplemseed/miniseed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 5af0178..86641e5 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -440,8 +440,9 @@ class MiniseedRecord:
                 f"not enough bytes in record to fit blockettes: {self.header.recordLength} offset: {offset:d}"
             )
         # set offset to data in header
-        if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
-            offset = 64
+        if self.header.encoding in (STEIM1, STEIM2) and offset % 64 != 0:
+            # steim frames start at multiple of 64, so payload is whole frames
+            offset += 64 - offset % 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None:
             if len(recordBytes) < offset + len(self.encodedDataBytes):
-- 
2.43.0


From 65217a923a1d779d2f62260d516aad07f01e8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 47/72] fix: miniseed2 record without data keeps zero data
 offset when packed

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 86641e5..75b75a9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -443,6 +443,9 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset % 64 != 0:
             # steim frames start at multiple of 64, so payload is whole frames
             offset += 64 - offset % 64
+        if self.encodedDataBytes is None and self._data is None:
+            # no data, so offset stays zero, last blockette may go to end of record
+            return recordBytes
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None:
             if len(recordBytes) < offset + len(self.encodedDataBytes):
-- 
2.43.0


From 8243acec601a7b00a828cb6ed13ac12f4e32ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 48/72] fix: mseed2to3 fails on DWWSSN record without samples
 but with payload

---
 src/simplemseed/seedcodec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 9f72f01..97ca285 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -286,7 +286,9 @@ def decompress(
     # set to 0, which messes up the decompresser even though it doesn't matter since there is no data.
     if numSamples == 0:
         dt = np.dtype("<i4")
-        if isPrimitiveCompression(compressionType):
+        if compressionType == DWWSSN:
+            dt = np.dtype("<i2")
+        elif isPrimitiveCompression(compressionType):
             dt = np.dtype(numpyDTFromMseed3Encoding(compressionType))
         return np.asarray([], dt)
 
-- 
2.43.0


From 1a0f25838cf44286a007473f9c435e981cf2f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 49/72] fix: start year of temporary network accepts any four
 characters

---
 src/simplemseed/fdsnsourceid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 5081afc..a7c0309 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -345,7 +345,7 @@ class NetworkSourceId:
         self.networkCode = networkCode
         if self.isSeedTempNet() and startYear is not None:
             if isinstance(startYear, str):
-                if len(startYear) != 4:
+                if not re.fullmatch(r"\d{4}", startYear, re.ASCII):
                     raise FDSNSourceIdException(f"Start year for network be 4 digit year, {startYear}")
             elif isinstance(startYear, int):
                 if startYear<1880 or 2100<startYear:
-- 
2.43.0


From b5e58c5b1f14e61b4956444b20c717d6a241bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 50/72] fix: mseed3details --get of item after the end of a
 list fails

---
 src/simplemseed/mseed3details.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 6a7bb23..7895052 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -6,7 +6,7 @@ import json
 import os
 import re
 import sys
-from jsonpointer import set_pointer, JsonPointer, JsonPointerException
+from jsonpointer import set_pointer, EndOfList, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
 from .version import VERSION
 
@@ -92,6 +92,9 @@ def do_get_eh(
                         print(ms3.summary())
                     try:
                         ehptr = pointer.resolve(ms3.eh)
+                        if isinstance(ehptr, EndOfList):
+                            # "-" is after the last item of a list
+                            raise JsonPointerException("past end of list")
                         ehStr = json.dumps(ehptr)
                         if outfile is None or outfile == sys.stdout:
                             print(f"  {ehStr}")
-- 
2.43.0


From 9b73e8460ad9a61a29b0f6a09b6416a508db63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 51/72] fix: mseed3details --set changes permissions of the
 file

---
 src/simplemseed/mseed3details.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 7895052..7892091 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -5,6 +5,7 @@ from datetime import datetime
 import json
 import os
 import re
+import shutil
 import sys
 from jsonpointer import set_pointer, EndOfList, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -137,6 +138,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                             print(f"  {json.dumps(ehptr)}")
                     fp.write(ms3.pack())
             fp.close()
+            shutil.copymode(ms3file, tmpfile)
             os.rename(tmpfile, ms3file)
         if not looking and not setall:
             break
-- 
2.43.0


From 5b0b911b91b4bd7a194656836fa3311a4731f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 52/72] fix: mseed3details --set replaces a symbolic link
 instead of the file

---
 src/simplemseed/mseed3details.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 7892091..1eb809f 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -118,6 +118,8 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     usePointer = len(setptr) > 1
     matchPat = re.compile(matchsid) if matchsid is not None else None
     for ms3file in ms3files:
+        # rewrite the file itself, not a symbolic link to it
+        ms3file = os.path.realpath(ms3file)
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-- 
2.43.0


From 7751d688c0a723088b87dd969d134340ed55e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:13 +0000
Subject: [PATCH 53/72] fix: mseed3details --set with a pointer of one
 character replaces all extra headers

---
 src/simplemseed/mseed3details.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 1eb809f..134de69 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -115,7 +115,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     setjson = json.loads(setval)
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
-    usePointer = len(setptr) > 1
+    usePointer = setptr not in ("", "/")
     matchPat = re.compile(matchsid) if matchsid is not None else None
     for ms3file in ms3files:
         # rewrite the file itself, not a symbolic link to it
-- 
2.43.0


From 4a4c364ed70f1f501b15fbb220b9865caa500abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 54/72] fix: details with --data fails on record that cannot be
 decompressed

---
 src/simplemseed/miniseed.py | 6 +++++-
 src/simplemseed/mseed3.py   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 75b75a9..2c0dfe2 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -11,6 +11,7 @@ import numpy as np
 
 from .exceptions import (
     CodecException,
+    UnsupportedCompressionType,
 )
 from .seedcodec import (
     decompress,
@@ -579,7 +580,10 @@ class MiniseedRecord:
         if showData:
             out = out + "data: \n"
             line = ""
-            data = self.decompress()
+            try:
+                data = self.decompress()
+            except UnsupportedCompressionType as e:
+                return out + f" {e}"
             for i in range(self.header.numSamples):
                 line += f" {data[i]:<8}"
                 if i % 10 == 9:
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index dc2d507..bc3f16b 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -655,7 +655,10 @@ class MSeed3Record:
         if showData:
             out = out + "data: \n"
             line = ""
-            data = self.decompress()
+            try:
+                data = self.decompress()
+            except UnsupportedCompressionType as e:
+                return out + f" {e}"
             for i in range(self.header.numSamples):
                 line += f" {data[i]:<8}"
                 if i % 10 == 9:
-- 
2.43.0


From 10abccf7bcdc985fecb7dbd69eeb0017b2ed29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 55/72] fix: array typecode of 32 bit integers is i, as l is 8
 bytes on most systems

---
 src/simplemseed/seedcodec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 97ca285..14ce683 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -163,7 +163,8 @@ def arrayTypecodeFromMSeed(encoding: int) -> str:
     if encoding == SHORT:
         return "h"
     if encoding == INTEGER:
-        return "l"
+        # l may be 8 bytes
+        return "i"
     if encoding == FLOAT:
         return "f"
     if encoding == DOUBLE:
-- 
2.43.0


From 667bd05dae1048c5d12e5f5c5bd6d3ef5e8137e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 56/72] fix: setSampleRate has no effect on packed record if
 factor and multiplier were set

---
 src/simplemseed/miniseed.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 2c0dfe2..1aa3c4c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -242,6 +242,9 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
+        # calculated from the rate when packed
+        self.sampRateFactor = 0
+        self.sampRateMult = 0
         self.sampPeriod = timedelta(
             microseconds=MICRO / self.sampleRate if self.sampleRate != 0 else 0
         )  # Nominal sample period (Sec) */
@@ -810,7 +813,11 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
                     elif type(b).__name__ == "Blockette100":
+                        # factor and multiplier remain as in fixed header
+                        factor, mult = header.sampRateFactor, header.sampRateMult
                         header.setSampleRate(b.sampleRate)
+                        header.sampRateFactor = factor
+                        header.sampRateMult = mult
                     elif type(b).__name__ == "Blockette1001":
                         # btime remains as in fixed header
                         header.starttime += timedelta(microseconds=b.microseconds)
-- 
2.43.0


From faac6e6b1d30de3ac6b84d149f7e7174e499c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 57/72] fix: mseed2to3 keeps padding of codes in the identifier

---
 src/simplemseed/mseed2to3.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 965a5fc..0face77 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -6,7 +6,6 @@ import sys
 
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
-from .fdsnsourceid import FDSNSourceId
 from .seedcodec import isPrimitiveCompression, BIG_ENDIAN, DWWSSN, SHORT
 from .version import VERSION
 
@@ -67,9 +66,8 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if data is None:
         # no payload
         ms3Header.encoding = 0
-    identifier = FDSNSourceId.fromNslc(
-        ms2H.network, ms2H.station, ms2H.location, ms2H.channel
-    )
+    # codes in header may be space padded
+    identifier = ms2H.fdsnSourceId()
 
     ms3Extras = {}
     fdsnExtras = {}
-- 
2.43.0


From d2d44f2e4399448f5928d80e9f2b3cb79a23a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 58/72] fix: size of record without payload is unknown

---
 src/simplemseed/mseed3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index bc3f16b..6509c93 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -515,10 +515,12 @@ class MSeed3Record:
         Returns None if any of the
         identifier, extra headers or data lengths are not yet calculated.
         """
+        # zero is a length if there is no payload, otherwise not yet calculated
+        noPayload = self._data is None or len(self._data) == 0
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and self.header.dataLength
+            and (self.header.dataLength or (noPayload and self.header.identifierLength))
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From 2673b5265c496a5284dee8f1e5c337eefec866b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 59/72] fix: size of record without identifier and payload is
 unknown

---
 src/simplemseed/mseed3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 6509c93..110bccc 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -515,12 +515,14 @@ class MSeed3Record:
         Returns None if any of the
         identifier, extra headers or data lengths are not yet calculated.
         """
-        # zero is a length if there is no payload, otherwise not yet calculated
+        # zero is a length if there is nothing to measure, otherwise not yet calculated
         noPayload = self._data is None or len(self._data) == 0
+        noIdentifier = len(str(self.identifier)) == 0
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and (self.header.dataLength or (noPayload and self.header.identifierLength))
+            and (self.header.dataLength
+                 or (noPayload and (self.header.identifierLength or noIdentifier)))
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From 61deac5c6f2c141e502125716f5dfadd45785a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 60/72] fix: mseed3details sets extra headers to json that is
 not an object

---
 src/simplemseed/mseed3details.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 134de69..eec6e4c 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -8,7 +8,7 @@ import re
 import shutil
 import sys
 from jsonpointer import set_pointer, EndOfList, JsonPointer, JsonPointerException
-from .mseed3 import readMSeed3Records
+from .mseed3 import Miniseed3Exception, readMSeed3Records
 from .version import VERSION
 
 
@@ -116,6 +116,8 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
     usePointer = setptr not in ("", "/")
+    if not usePointer and setjson is not None and not isinstance(setjson, dict):
+        raise Miniseed3Exception(f"extra headers must be a json object: {setval}")
     matchPat = re.compile(matchsid) if matchsid is not None else None
     for ms3file in ms3files:
         # rewrite the file itself, not a symbolic link to it
-- 
2.43.0


From 0c35befb72d313d5606759ff7eeddb989ba1769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 61/72] fix: little endian miniseed2 of year 2055 was taken for
 big endian of year 1800

---
 src/simplemseed/miniseed.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1aa3c4c..805bd1f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -712,10 +712,8 @@ def unpackFixedHeaderGuessByteOrder(recordBytes):
     byteorder = BIG_ENDIAN
     endianChar = ">"
     # 0x0708 = 1800 and 0x0807 = 2055
-    if (
-        recordBytes[20] == 7
-        or recordBytes[20] == 8
-        and not (recordBytes[21] == 7 or recordBytes[21] == 8)
+    if (recordBytes[20] == 7 or recordBytes[20] == 8) and not (
+        recordBytes[21] == 7 or recordBytes[21] == 8
     ):
         # print("big endian {:d} {:d}".format(recordBytes[20], recordBytes[21]))
         byteorder = BIG_ENDIAN
-- 
2.43.0


From 45dc635cf4b70c2ef6d5bf7b22d38b95ab4fc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 62/72] fix: extra headers that are a json array are lost when
 a record is packed after they were looked at

---
 src/simplemseed/mseed3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 110bccc..1269075 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -411,7 +411,11 @@ class MSeed3Record:
         """ Extra headers, from json."""
         if self._eh is not None and isinstance(self._eh, str):
             if len(self._eh) > 0:
-                self._eh = json.loads(self._eh)
+                parsed = json.loads(self._eh)
+                if not isinstance(parsed, dict):
+                    # not an object, keep text so it is still there when packed
+                    return parsed
+                self._eh = parsed
             else:
                 self._eh = {}
         return self._eh
@@ -559,7 +563,7 @@ class MSeed3Record:
         elif isinstance(self._eh, str):
             extraHeadersStr = self._eh
         else:
-            extraHeadersStr = ""
+            extraHeadersStr = json.dumps(self._eh)
         extraHeadersBytes = extraHeadersStr.encode("UTF-8")
         self.header.extraHeadersLength = len(extraHeadersBytes)
         if self._data is None:
-- 
2.43.0


From eafdd0d12127ac93a08a87be5944ca9feb16eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 63/72] fix: empty extra headers with white space are shown
 only the first time

---
 src/simplemseed/mseed3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 1269075..d2ce577 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -505,7 +505,8 @@ class MSeed3Record:
             return False
         if isinstance(self._eh, dict) and len(self._eh) > 0:
             return True
-        if isinstance(self._eh, str) and len(self._eh) > 2:
+        # white space around or within an empty object does not count
+        if isinstance(self._eh, str) and len("".join(self._eh.split())) > 2:
             return True
         return False
 
-- 
2.43.0


From 5d3bcbb1bf70bc9704a51987d801cc0e2661ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 64/72] fix: finite list values too large for a float encoding
 are refused, not infinity

---
 src/simplemseed/miniseed.py | 4 +++-
 src/simplemseed/mseed3.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 805bd1f..966ee01 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -348,7 +348,9 @@ class MiniseedRecord:
                 encoding = 4  # default to 32 bit floats?
             else:
                 encoding = self.header.encoding
-            self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            with np.errstate(over="raise"):
+                # value too large for float is an error, not infinity
+                self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
             if np.issubdtype(self._data.dtype, np.integer) and not np.array_equal(self._data, data):
                 raise MiniseedException(f"list values cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index d2ce577..07b64cb 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -384,7 +384,9 @@ class MSeed3Record:
                 encoding = 4  # default to 32 bit floats?
             else:
                 encoding = self.header.encoding
-            self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            with np.errstate(over="raise"):
+                # value too large for float is an error, not infinity
+                self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
             if np.issubdtype(self._data.dtype, np.integer) and not np.array_equal(self._data, data):
                 raise Miniseed3Exception(f"list values cannot be represented in encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
-- 
2.43.0


From cd8210a748da5cdb977b59ea063876adc3e8ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 65/72] fix: packing adds a blockette 1000 to the list the
 record was created with

---
 src/simplemseed/miniseed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 966ee01..46b0d82 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -302,7 +302,8 @@ class MiniseedRecord:
         self.header = header
         self.encodedDataBytes = encodedDataBytes
         if blockettes is not None:
-            self.blockettes = blockettes
+            # copy, as packing may add a blockette 1000
+            self.blockettes = list(blockettes)
         else:
             self.blockettes = []
         self._data = None
-- 
2.43.0


From a003dbf456fc9f655a3c512c1fd34884c721dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 66/72] fix: command line tools destroy their input when it is
 also the output

---
 src/simplemseed/mseed2to3.py     | 12 ++++++++++--
 src/simplemseed/mseed3details.py | 13 +++++++++++--
 src/simplemseed/mseed3merge.py   |  6 +++++-
 src/simplemseed/util.py          | 12 ++++++++++++
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0face77..c7505fa 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -7,6 +7,7 @@ import sys
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
 from .seedcodec import isPrimitiveCompression, BIG_ENDIAN, DWWSSN, SHORT
+from .util import overwritesInput
 from .version import VERSION
 
 
@@ -123,9 +124,16 @@ def do_parseargs():
         "--ms3",
         required=True,
         help="mseed3 file",
-        type=argparse.FileType("wb"),
     )
-    return parser.parse_args()
+    args = parser.parse_args()
+    # open output only after check, as opening truncates
+    if overwritesInput(args.ms3, [args.ms2.name]):
+        parser.error(f"output would overwrite input: {args.ms3}")
+    try:
+        args.ms3 = argparse.FileType("wb")(args.ms3)
+    except argparse.ArgumentTypeError as e:
+        parser.error(f"argument -3/--ms3: {e}")
+    return args
 
 
 def main():
diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index eec6e4c..d2ff905 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -9,6 +9,7 @@ import shutil
 import sys
 from jsonpointer import set_pointer, EndOfList, JsonPointer, JsonPointerException
 from .mseed3 import Miniseed3Exception, readMSeed3Records
+from .util import overwritesInput
 from .version import VERSION
 
 
@@ -35,7 +36,6 @@ def do_parseargs():
     parser.add_argument(
         "-o",
         "--outfile",
-        type=argparse.FileType("w", encoding="UTF-8"),
         help="""output to file. For get, the output will be json, but for
         getall it will be jsonl, with a separate json object on each line.
         If a record does not have extra headers, a blank line will be output.
@@ -73,7 +73,16 @@ def do_parseargs():
     parser.add_argument(
         "ms3files", metavar="ms3file", nargs="+", help="mseed3 files to print"
     )
-    return parser.parse_args()
+    args = parser.parse_args()
+    # open output only after check, as opening truncates
+    if overwritesInput(args.outfile, args.ms3files):
+        parser.error(f"output would overwrite input: {args.outfile}")
+    if args.outfile is not None:
+        try:
+            args.outfile = argparse.FileType("w", encoding="UTF-8")(args.outfile)
+        except argparse.ArgumentTypeError as e:
+            parser.error(f"argument -o/--outfile: {e}")
+    return args
 
 
 def do_get_eh(
diff --git a/src/simplemseed/mseed3merge.py b/src/simplemseed/mseed3merge.py
index b156673..e10daf5 100644
--- a/src/simplemseed/mseed3merge.py
+++ b/src/simplemseed/mseed3merge.py
@@ -8,6 +8,7 @@ records for merging.
 import argparse
 import sys
 from .mseed3 import readMSeed3Records
+from .util import overwritesInput
 from .version import VERSION
 
 def do_parseargs():
@@ -37,7 +38,10 @@ def do_parseargs():
         "-o", "--outfile", required=True, help="mseed3 file to output merged records"
     )
     parser.add_argument("ms3file", help="mseed3 file to merge records")
-    return parser.parse_args()
+    args = parser.parse_args()
+    if overwritesInput(args.outfile, [args.ms3file]):
+        parser.error(f"output would overwrite input: {args.outfile}")
+    return args
 
 
 def main():
diff --git a/src/simplemseed/util.py b/src/simplemseed/util.py
index 9bde0ad..7e446c0 100644
--- a/src/simplemseed/util.py
+++ b/src/simplemseed/util.py
@@ -1,3 +1,4 @@
+import os
 
 
 def isoWZ(time) -> str:
@@ -8,3 +9,14 @@ def isoWZ(time) -> str:
     timezone with a Z if it is +00:00.
     """
     return time.isoformat().replace("+00:00", "Z")
+
+
+def overwritesInput(outfile, infiles) -> bool:
+    """
+    Check if output file is also one of the input files.
+
+    Opening such an output would destroy the input before it is read.
+    """
+    if outfile is None or not os.path.isfile(outfile):
+        return False
+    return any(os.path.isfile(f) and os.path.samefile(outfile, f) for f in infiles)
-- 
2.43.0


From b18c3740426724ac625c66ba807d9141a52f0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 67/72] fix: mseed3details succeeds though its output file
 could not be written

---
 src/simplemseed/mseed3details.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index d2ff905..b8dc266 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -231,6 +231,8 @@ def do_details():
                     else:
                         print(ms3.details(showExtraHeaders=args.eh, showData=args.data))
         print(f"Total {totSamples} samples in {numRecords} records")
+    # failure to write should not be lost
+    outfile.flush()
 
 
 def main():
-- 
2.43.0


From 96877af7a027d855e231145dadedb320dfa34ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 68/72] fix: reading miniseed3 with match from a pipe fails

---
 src/simplemseed/mseed3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 07b64cb..1094a3f 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -832,8 +832,9 @@ def readMSeed3Records(
             # failed match, can skip ahead to next record
             if verbose:
                 print(f"match fail, {identifier} skip")
-            fileptr.seek(ms3header.extraHeadersLength, 1)
-            fileptr.seek(ms3header.dataLength, 1)
+            # read instead of seek, as may be a pipe
+            fileptr.read(ms3header.extraHeadersLength)
+            fileptr.read(ms3header.dataLength)
     if prev is not None:
         yield prev
 
-- 
2.43.0


From 7d4b9c25918957a3615677c0b53226b9c7e8ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 69/72] fix: readers lose records of unbuffered sources, as a
 read may return fewer bytes than asked for

---
 src/simplemseed/miniseed.py |  3 ++-
 src/simplemseed/mseed3.py   |  3 ++-
 src/simplemseed/util.py     | 25 +++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 46b0d82..3e24e42 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -26,7 +26,7 @@ from .seedcodec import (
     encodingName,
 )
 from .fdsnsourceid import FDSNSourceId
-from .util import isoWZ
+from .util import isoWZ, FullReader
 
 MICRO = 1000000
 
@@ -757,6 +757,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
     Optionally, filter records by matching the source id with a
     regular expression.
     """
+    fileptr = FullReader(fileptr)
     matchPat = None
     if matchsid is not None:
         matchPat = re.compile(matchsid)
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 1094a3f..9cab989 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -26,7 +26,7 @@ from .seedcodec import (
     encodingName,
 )
 from .fdsnsourceid import FDSNSourceId, FDSN_PREFIX
-from .util import isoWZ
+from .util import isoWZ, FullReader
 
 MINISEED_THREE_MIME = "application/vnd.fdsn.mseed3"
 """ MIME type for miniseed3, 'application/vnd.fdsn.mseed3'. """
@@ -776,6 +776,7 @@ def readMSeed3Records(
             # do something...
             pass
     """
+    fileptr = FullReader(fileptr)
     matchPat = None
     prev = None
     if matchsid is not None:
diff --git a/src/simplemseed/util.py b/src/simplemseed/util.py
index 7e446c0..93ad300 100644
--- a/src/simplemseed/util.py
+++ b/src/simplemseed/util.py
@@ -20,3 +20,28 @@ def overwritesInput(outfile, infiles) -> bool:
     if outfile is None or not os.path.isfile(outfile):
         return False
     return any(os.path.isfile(f) and os.path.samefile(outfile, f) for f in infiles)
+
+
+class FullReader:
+    """
+    Reads all of the bytes asked for, fewer only at the end of the source.
+
+    A single read of an unbuffered source, like a pipe or socket, may return
+    fewer bytes even though more will follow.
+    """
+    def __init__(self, fileptr):
+        self.fileptr = fileptr
+
+    def read(self, size):
+        out = self.fileptr.read(size)
+        if not 0 < len(out) < size:
+            return out
+        parts = [out]
+        numRead = len(out)
+        while numRead < size:
+            more = self.fileptr.read(size - numRead)
+            if not more:
+                break
+            parts.append(more)
+            numRead += len(more)
+        return b"".join(parts)
-- 
2.43.0


From d3e8a705ef2ea8ee72db3d04b22bb87e3989634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 70/72] fix: frame block packs wrong byte order after
 unpickling

Pickling below protocol 5 gives an array in native byte order.
---
 src/simplemseed/steimframeblock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/steimframeblock.py b/src/simplemseed/steimframeblock.py
index 098c40a..7ec6c10 100644
--- a/src/simplemseed/steimframeblock.py
+++ b/src/simplemseed/steimframeblock.py
@@ -45,7 +45,8 @@ class SteimFrame:
         return False
 
     def pack(self):
-        return self.word.tobytes()
+        # byte order of an array may be lost when pickled
+        return self.word.astype(">i4").tobytes()
 
 
 class SteimFrameBlock:
-- 
2.43.0


From 52c667dbcf88a063e87911091cabbb266d405e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 71/72] fix: packing a frame block takes time quadratic in the
 number of frames

---
 src/simplemseed/steimframeblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/steimframeblock.py b/src/simplemseed/steimframeblock.py
index 7ec6c10..6d87064 100644
--- a/src/simplemseed/steimframeblock.py
+++ b/src/simplemseed/steimframeblock.py
@@ -202,5 +202,5 @@ class SteimFrameBlock:
     def pack(self):
         out = bytearray()
         for frame in self.steimFrameList:
-            out = out + frame.pack()
+            out += frame.pack()
         return out
-- 
2.43.0


From 21eb2788bfabbcf3731576eee50e3ee3a6dcd639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:00 +0000
Subject: [PATCH 72/72] fix: two processes setting extra headers at the same
 tick of the clock use the same temporary file

---
 src/simplemseed/mseed3details.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index b8dc266..73c1a28 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -131,7 +131,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     for ms3file in ms3files:
         # rewrite the file itself, not a symbolic link to it
         ms3file = os.path.realpath(ms3file)
-        tmpfile = f"{ms3file}_tmp{now}"
+        tmpfile = f"{ms3file}_tmp{now}_{os.getpid()}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
                 # all records need to be written, even if not matched
-- 
2.43.0

