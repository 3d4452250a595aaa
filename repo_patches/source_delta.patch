From 33b3b3b333770fd6a6027687d0ce5ac89fef704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 01/82] fix: BKStatusGetName read outside of its table for
 positive and type values

---
 src/BKBase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..52b82e5 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,7 +48,7 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
+	if (status > (BKEnum) BK_RETURN_TYPE && status <= (BKEnum) BK_OTHER_ERROR) {
 		name = statusNames [BK_STATUS_IDX (status)];
 	}
 
-- 
2.43.0


From e2a734117785611d3e05b5744f91539d4b45949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 02/82] fix: BKTimeMake overflowed from 2048 frames,
 BKTimeIsGreaterFUInt20 compared large values as negative

---
 src/BKTime.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..6061c60 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return (BKTime) samples * BK_FINT20_UNIT + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From 48d5478d0d16f27dac3fdbe98d6b2c507b3350a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 03/82] fix: round bias of slow falling slides and intervals
 exceeded one unit

---
 src/BKInterpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..86a2c72 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -37,7 +37,7 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		// prevent division by 0
 		if ((deltaValue >> state -> valueShift)) {
 			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
-			roundBias = (roundBias * (stepDelta >> stepShift));
+			roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 		}
 
 		state -> endValue  = endValue;
@@ -100,7 +100,7 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			// prevent division by 0
 			if (delta >> state -> valueShift) {
 				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
-				roundBias = (roundBias * (stepDelta >> stepShift));
+				roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 			}
 
 			switch (state -> phase) {
-- 
2.43.0


From 9110b5ebe7a956763f8222f7f5bd254c6b345c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 04/82] fix: RIFF size included the initial file offset

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..e87a5aa 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -155,7 +155,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
 	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
-- 
2.43.0


From a8eda90017e762d14476f7706ae3e6169f456732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 05/82] fix: BKWaveFileWriteData swapped sample rate and
 channel count

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index e87a5aa..a2186a8 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -253,7 +253,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From db65fda3d51d431ab39ab029d90a2b044d56135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 06/82] fix: terminating a WAV file without frames wrote no
 header

---
 src/BKWaveFileWriter.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index a2186a8..0707cfd 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -219,6 +219,13 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	// file without frames
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return -1;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
-- 
2.43.0


From 757a04e77ad05db3bb61ff52a605c02ce7e24c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 07/82] fix: writer refused for its bit depth was left
 initialized without a file

---
 src/BKWaveFileWriter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 0707cfd..3c46a7e 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -92,10 +92,6 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return res;
 	}
 
-	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
-		return res;
-	}
-
 	if (!numBits) {
 		numBits = 16;
 	}
@@ -103,6 +99,10 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return BK_INVALID_VALUE;
 	}
 
+	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
+		return res;
+	}
+
 	writer -> file          = file;
 	writer -> initOffset    = ftell (file);
 	writer -> sampleRate    = sampleRate;
-- 
2.43.0


From c9148214952a9c0bb7e088565e90a56d613104ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 08/82] fix: failed writes of WAV files were not reported

---
 src/BKWaveFileWriter.c | 43 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 3c46a7e..b9435b0 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -151,9 +151,11 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 		fmtHeader.byteRate      = BKInt32Reverse (fmtHeader.byteRate);
 	}
 
-	fwrite (& header, sizeof (header), 1, writer -> file);
-	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
-	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
+	if (fwrite (& header, sizeof (header), 1, writer -> file) != 1
+		|| fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file) != 1
+		|| fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
@@ -199,11 +201,15 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 			frames += writeSize;
 			numFrames -= writeSize;
 
-			fwrite (buffer, numBits / 8, writeSize, writer -> file);
+			if (fwrite (buffer, numBits / 8, writeSize, writer -> file) != writeSize) {
+				return BK_FILE_ERROR;
+			}
 		}
 	}
 	else {
-		fwrite (frames, sizeof (BKFrame), numFrames, writer -> file);
+		if (fwrite (frames, sizeof (BKFrame), numFrames, writer -> file) != numFrames) {
+			return BK_FILE_ERROR;
+		}
 	}
 
 	writer -> fileSize += dataSize;
@@ -233,8 +239,10 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0
+		|| fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	offset = writer -> initOffset + sizeof (BKWaveFileHeader) + sizeof (BKWaveFileHeaderFmt);
 	offset += offsetof (BKWaveFileHeaderData, subchunkSize);
@@ -245,11 +253,14 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0
+		|| fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
-	fseek (writer -> file, 0, SEEK_END);
-	fflush (writer -> file);
+	if (fseek (writer -> file, 0, SEEK_END) != 0 || fflush (writer -> file) != 0) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> object.flags |= BKWaveFileFlagTerminated;
 
@@ -258,18 +269,22 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 
 BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, BKInt numBits)
 {
+	BKInt            res;
 	BKWaveFileWriter writer;
 
 	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-	BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
-	BKWaveFileWriterTerminate (& writer);
+	res = BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
+
+	if (res == 0) {
+		res = BKWaveFileWriterTerminate (& writer);
+	}
 
 	BKDispose (& writer);
 
-	return 0;
+	return res;
 }
 
 BKClass BKWaveFileWriterClass =
-- 
2.43.0


From 2627a0b99177315b26903a2a8194d8f70451cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 09/82] fix: reading a WAV file with 0 channels divided by 0

---
 src/BKWaveFileReader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..be233e6 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -133,6 +133,10 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels == 0) {
+			return -1;
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
-- 
2.43.0


From c6406e6621654c2acea7fee3bb1e0b12b77cc6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 10/82] fix: WAV data with incomplete frames or 8 bit was
 written or cleared outside of the frame buffer

---
 src/BKWaveFileReader.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index be233e6..729df75 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -187,7 +187,14 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			reader -> dataSize = size - cur;
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		if (reader -> dataSize / frameSize > BK_INT_MAX) {
+			reader -> sampleRate = 0;
+			return -1;
+		}
+
+		// ignore incomplete trailing frame
+		reader -> numFrames = (BKInt) (reader -> dataSize / frameSize / reader -> numChannels);
+		reader -> dataSize  = (BKSize) reader -> numFrames * reader -> numChannels * frameSize;
 	}
 
 	* outNumChannels = reader -> numChannels;
@@ -272,8 +279,8 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	// empty missing frames if any
+	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From 9e7e23ddcdca3ab0653768a09072fd7040dd46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 11/82] fix: extended format chunks and padding bytes of WAV
 files were not skipped

---
 src/BKWaveFileReader.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 729df75..78064d3 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -125,6 +125,21 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		// size of format fields
+		size = sizeof (headerFmt) - offsetof (BKWaveFileHeaderFmt, audioFormat);
+
+		if (headerFmt.subchunkSize < size) {
+			return -1;
+		}
+
+		// skip format extension; chunks are aligned to 2 bytes
+		size = headerFmt.subchunkSize - size;
+		size += size & 1;
+
+		if (size && fseek (reader -> file, size, SEEK_CUR) != 0) {
+			return -1;
+		}
+
 		if (headerFmt.audioFormat != 1) {
 			return -1;
 		}
@@ -150,8 +165,13 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 				break;
 			}
 
-			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			// seek to next subchunk; chunks are aligned to 2 bytes
+			size = headerData.subchunkSize;
+			size += size & 1;
+
+			if (fseek (reader -> file, size, SEEK_CUR) != 0) {
+				return -1;
+			}
 		}
 		while (1);
 
-- 
2.43.0


From 489e3e1959cf69c93473fdf63e5c9d3fa644c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 12/82] fix: big endian 16 bit data lost the low byte

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..4a95059 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -521,7 +521,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 16: {
 				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
+					outFrames [0] = (BKFrame) ((charData [0] << 8) | charData [1]);
 				} else {
 					outFrames [0] =  (* (BKFrame *) charData);
 				}
-- 
2.43.0


From 8d72eaee20024834f732b8e9c9fda186a8b69b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 13/82] fix: converted data was leaked or freed wrongly and its
 users were not notified

---
 src/BKData.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 4a95059..142c7a6 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -572,14 +572,18 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
 
+	data -> object.flags |= BK_DATA_FLAG_COPY;
+	data -> frames        = frames;
+
 	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0)
 		return -1;
 
-	data -> frames      = frames;
 	data -> numFrames   = numFrames / numChannels;
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From acc3cb3d2ce7dc9645cfb9d24f723d8599c0018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 14/82] fix: trailing packed frames were not converted, data
 with less than 2 frames was accepted

---
 src/BKData.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 142c7a6..c740c31 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -472,7 +472,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 		case 16: mask = 2; break;
 	}
 
-	dataSize -= (dataSize % (mask * numChannels));
+	dataSize -= dataSize % mask;
 
 	for (charData = data; (void *) charData < data + dataSize;) {
 		switch (numBits) {
@@ -559,14 +559,18 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 	numFrames = BKDataCalculateNumFramesFromNumBits (dataSize, numBits, numChannels);
 
-	if (numFrames < 0)
-		return BK_INVALID_NUM_BITS;
+	// need at least 2 phases
+	if (numFrames / (BKInt) numChannels < 2)
+		return BK_INVALID_NUM_FRAMES;
+
+	// convert only complete frames
+	dataSize = ((BKUInt) numFrames * numBits + 7) / 8;
 
 	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
+		frames = realloc (data -> frames, (numFrames + 7) * sizeof (BKFrame));
 	}
 	else {
-		frames = malloc (numFrames * sizeof (BKFrame));
+		frames = malloc ((numFrames + 7) * sizeof (BKFrame));
 	}
 
 	if (frames == NULL)
-- 
2.43.0


From 2e3d80ccc379385606b776150ab26bb29b0cc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 15/82] fix: unreadable raw data files were accepted with
 uninitialized content

---
 src/BKData.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index c740c31..069d1b2 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -593,7 +593,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum params)
 {
-	BKSize offset, size;
+	long   offset, size;
 	void * frames;
 	BKInt  ret = 0;
 
@@ -618,9 +618,13 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	}
 
 	fseek (file, offset, SEEK_SET);
-	fread (frames, sizeof (char), size, file);
 
-	ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
+	if (fread (frames, sizeof (char), size, file) == size) {
+		ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
+	}
+	else {
+		ret = BK_FILE_ERROR;
+	}
 
 	free (frames);
 
-- 
2.43.0


From aaa8446c306b34ed15216a2f93e9af359c8952a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 16/82] fix: loading a WAV file leaked previous frames, left
 users with freed frames and accepted unusable formats

---
 src/BKData.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 069d1b2..d783a46 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -643,9 +643,20 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadHeader (& reader, & numChannels, & sampleRate, & numFrames) < 0) {
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	if (numFrames < 2) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_FRAMES;
+	}
+
+	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_CHANNELS;
+	}
+
 	size   = numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
@@ -655,10 +666,15 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadFrames (& reader, frames) < 0) {
+		BKDispose (& reader);
 		free (frames);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	if (data -> object.flags & BK_DATA_FLAG_COPY) {
+		free (data -> frames);
+	}
+
 	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> numBits       = 16;
 	data -> sampleRate    = sampleRate;
@@ -668,6 +684,8 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	BKDispose (& reader);
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From b779c23c3876afdfce42c808434a383a82999131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 17/82] fix: frames set without copying were freed with the
 data object

---
 src/BKData.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index d783a46..59ff1f7 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -336,6 +336,9 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	BKUInt    size;
 	BKFrame * newFrames;
 
+	if (frames == NULL)
+		return -1;
+
 	// need at least 2 phases
 	if (numFrames < 2)
 		return BK_INVALID_NUM_FRAMES;
@@ -365,11 +368,9 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 			free (data -> frames);
 		}
 
-		newFrames = (BKFrame *) frames;
-	}
+		data -> object.flags &= ~BK_DATA_FLAG_COPY;
 
-	if (newFrames == NULL) {
-		return -1;
+		newFrames = (BKFrame *) frames;
 	}
 
 	data -> frames      = newFrames;
-- 
2.43.0


From 57994089380c2bf01b68fb237f68625d1de5f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 18/82] fix: normalized data was not passed to its users

---
 src/BKData.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 59ff1f7..a776a69 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -715,6 +715,8 @@ BKInt BKDataNormalize (BKData * data)
 			data -> frames [i] = (data -> frames [i] * factor) >> 16;
 	}
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 26ceaf71d9d0acb9a14f5942e8ac0321104c7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 19/82] fix: converting referenced frames leaked the copy

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index a776a69..6f97962 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -840,7 +840,8 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 
 	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
 
-	data -> frames = convertedFrames;
+	data -> object.flags |= BK_DATA_FLAG_COPY;
+	data -> frames        = convertedFrames;
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 
-- 
2.43.0


From e060c3c55b8bfd69504f88c93fee25a8aac0f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 20/82] fix: removing a failed state from the list of a data
 object lost its predecessor

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 6f97962..7d65f38 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From 4cca45afdb5768dcd3a92fbb8edbde2366abcc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 21/82] fix: copy of a data object was not recognized as
 initialized and could not be disposed

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 7d65f38..90ae560 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -192,9 +192,9 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 
 	memcpy (copy, original, sizeof (BKData));
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
-	copy -> stateList = NULL;
-	copy -> frames    = NULL;
+	copy -> object.flags = BKObjectFlagInitialized;
+	copy -> stateList    = NULL;
+	copy -> frames       = NULL;
 
 	if (original -> frames)
 		res = BKDataSetFrames (copy, original -> frames, original -> numFrames, original -> numChannels, 1);
-- 
2.43.0


From 56e6edff274a0806286c62f982a6cb25c2382d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 22/82] fix: units kept frames of data which became unusable

---
 src/BKUnit.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..e72d167 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -193,6 +193,7 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
 	BKEnum type;
+	BKInt  res;
 
 	switch (unit -> waveform) {
 		case BK_CUSTOM: {
@@ -210,7 +211,15 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// data can not be used anymore
+	if (res < 0) {
+		unit -> waveform      = 0;
+		unit -> sample.frames = NULL;
+	}
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
-- 
2.43.0


From 847ec28f5ac0754a0b59a2670c685cfbed9b5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 23/82] fix: clearing a custom waveform was reported as error

---
 src/BKUnit.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index e72d167..9b7474f 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -106,7 +106,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				unit -> sample.offset = 0;
 				unit -> sample.end    = 0;
 				unit -> sample.frames = NULL;
-				return -1;
 			}
 
 			break;
-- 
2.43.0


From 8d9e972fde8bc721906ada276fb2f09b1d9a8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 24/82] fix: clearing the sample unlinked the data of a custom
 waveform and vice versa

---
 src/BKUnit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 9b7474f..a21c58b 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -173,7 +173,9 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
 
 	if (res == 0) {
-		BKDataStateSetData (& unit -> sample.dataState, data);
+		// keep data which is used otherwise
+		if (data || (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE))
+			BKDataStateSetData (& unit -> sample.dataState, data);
 	}
 	// unset data when failed
 	else {
-- 
2.43.0


From d385641dbb774b6741bec89cf378a9767c47ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 25/82] fix: sample with unsuitable number of channels was read
 out of bounds after attaching to another context

---
 src/BKUnit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index a21c58b..13b27fa 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -275,6 +275,10 @@ BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 		unit -> ctx      = ctx;
 		unit -> time     = ctx -> deltaTime;  // shift time to context time
 
+		// number of channels must be either 1 or equal to number of context channels
+		if (unit -> waveform == BK_SAMPLE && unit -> sample.numChannels != 1 && unit -> sample.numChannels != ctx -> numChannels)
+			BKUnitSetData (unit, BK_SAMPLE, NULL);
+
 		if (ctx -> lastUnit) {
 			ctx -> lastUnit -> nextUnit = unit;
 			ctx -> lastUnit = unit;
-- 
2.43.0


From 62d1c615d06f1ebf0022103f0e0ddbf3626bdbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 26/82] fix: return value of the sample callback was ignored

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 13b27fa..5397818 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -233,7 +233,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
-- 
2.43.0


From 9d6818a8d285f86fab99312457d3d561a70bfbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 27/82] fix: reading pointer attributes of units set them
 instead

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 5397818..1139c6c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1287,7 +1287,7 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 
 static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From 3b17a730bfcc5dfeaf7504998bfe8980f017bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 28/82] fix: forward sample range set before playing started at
 its end

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 1139c6c..03091b5 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -367,7 +367,7 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 			newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
-		else if (unit -> phase.phase == 0) {
+		else if (unit -> sample.offset > unit -> sample.end && unit -> phase.phase == 0) {
 			newPhase = unit -> sample.length - 1;
 		}
 	}
-- 
2.43.0


From b978e1e40b2f10b2c77f194dbb6225bbf00f4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 29/82] fix: sustain range and release jump could exceed the
 sample range

---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 03091b5..2bd0df5 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -384,7 +384,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// range is relative to sample range
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -568,7 +569,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
-- 
2.43.0


From 7e94ca32a1c116f63ca8fddbbae5b9be67e1079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 30/82] fix: reversed palindrome sample could exceed its end at
 high speed

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 2bd0df5..d54b180 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1091,7 +1091,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			else if (resetDir == -1) {
-				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
+				unit -> phase.phase = BKMin (unit -> sample.length - unit -> phase.phase, unit -> sample.length - 1);
 			}
 			mode = -resetDir;
 			break;
-- 
2.43.0


From 7236fca848a226f7f7ea9e31fa91e84f6b227cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 31/82] fix: disposing a clock with attached dividers never
 returned

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..0b01c7e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From 68bd021c08a7100413ba81bd50cfda7bed79a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 32/82] fix: clock refused for its position was left half
 attached

---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 0b01c7e..7a23551 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,16 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock != NULL && beforeClock -> ctx != ctx)
+			return BK_INVALID_VALUE;
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +111,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +124,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From 2f84d1045a3ebd4b962f34c60b791277a1b9247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 33/82] fix: attaching an already attached divider was not
 reported

---
 src/BKContext.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..cef617c 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -501,7 +501,9 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 	if (group) {
 		// Check if required values set
 		if (BKTimeIsGreater (clock -> period, BK_TIME_ZERO)) {
-			BKDividerAttachToGroup (divider, group);
+			if (BKDividerAttachToGroup (divider, group) < 0)
+				return BK_INVALID_STATE;
+
 			BKClockAttach (clock, ctx, ctx -> firstClock);
 		}
 		else {
-- 
2.43.0


From bfee7f5c30a146cca0b5488316ec860018536462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 34/82] fix: dividers stayed attached to a disposed context

---
 src/BKContext.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index cef617c..2dc40e5 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -101,6 +101,12 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	return 0;
 }
 
+static void BKContextDetachDividers (BKDividerGroup * group)
+{
+	while (group -> firstDivider)
+		BKDividerDetach (group -> firstDivider);
+}
+
 static void BKContextDisposeObject (BKContext * ctx)
 {
 	BKUnit   * nextUnit;
@@ -117,6 +123,9 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKClockDetach (clock);
 	}
 
+	BKContextDetachDividers (& ctx -> beatDividers);
+	BKContextDetachDividers (& ctx -> effectDividers);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferDispose (channel);
-- 
2.43.0


From c4bc56c4ff37c54d28a075abf1674fd3c7c67adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 35/82] fix: time until the next tick was wrong for clocks
 attached or reset after the start

---
 src/BKContext.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 2dc40e5..a19a018 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -353,21 +353,21 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 	BKFUInt20 period;
 
 	do {
-		nextTime = BK_TIME_MAX;
+		deltaTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
 		for (clock = clocks; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
-			// get next time to tick
-			if (BKTimeIsLess (clock -> nextTime, nextTime))
-				nextTime = clock -> nextTime;
+			// get next time to tick relative to time of clock
+			nextTime = BKTimeSub (clock -> nextTime, clock -> time);
+
+			if (BKTimeIsLess (nextTime, deltaTime))
+				deltaTime = nextTime;
 		}
 	}
 	while (ctx -> flags & BK_CONTEXT_FLAG_CLOCK_RESET);
 
-	deltaTime = BKTimeSub (nextTime, ctx -> currentTime);
-
 	if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 		period = BKTimeGetFUInt20 (deltaTime);
 	}
-- 
2.43.0


From a87ec8efdd2e3fb22b40fd0e9fbd43e57ea34cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 36/82] fix: time of a context without clocks did not advance
 and moved later attached objects into the future

---
 src/BKContext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index a19a018..ad5a0ce 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -412,6 +412,12 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
+
+		// advance time
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime   = endTime;
+		}
 	}
 
 	return endTime;
-- 
2.43.0


From dbe910218353dc964f7eb4db322752e13db721aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 37/82] fix: context reset did not reset dividers attached to
 it

---
 src/BKContext.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index ad5a0ce..5edd60d 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -475,6 +475,7 @@ void BKContextReset (BKContext * ctx)
 	BKUnit   * unit;
 	BKBuffer * channel;
 	BKClock  * clock;
+	BKDivider * divider;
 
 	ctx -> deltaTime   = 0;
 	ctx -> currentTime = BK_TIME_ZERO;
@@ -487,6 +488,12 @@ void BKContextReset (BKContext * ctx)
 	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockReset (clock);
 
+	for (divider = ctx -> beatDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
+	for (divider = ctx -> effectDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferClear (channel);
-- 
2.43.0


From fdb70294bf1d9f3f5d6a2f3ce769f1631b9e3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 38/82] fix: context was leaked and could not be disposed when
 allocation failed

---
 src/BKContext.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 5edd60d..f4f521c 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -62,8 +62,10 @@ static BKInt BKContextInitGeneric (BKContext * ctx, BKUInt numChannels, BKUInt s
 
 	BKContextUpdateMasterClocks (ctx);
 
-	if (ctx -> channels == NULL)
+	if (ctx -> channels == NULL) {
+		ctx -> numChannels = 0;
 		return BK_ALLOCATION_ERROR;
+	}
 
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
@@ -82,6 +84,7 @@ BKInt BKContextInit (BKContext * ctx, BKUInt numChannels, BKUInt sampleRate)
 	}
 
 	if (BKContextInitGeneric (ctx, numChannels, sampleRate) < 0) {
+		BKDispose (ctx);
 		return -1;
 	}
 
@@ -95,6 +98,8 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
+		BKDispose (*outCtx);
+		*outCtx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From 97d53145098b37dc1edc9727d44d45877e4724d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 39/82] fix: steps larger than the frame range were truncated

---
 src/BKBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..5b33bc3 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -147,7 +147,7 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return buf -> time >> BK_FINT20_SHIFT;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-- 
2.43.0


From 7d26c670702f14e5bc7f7741e217345d39ab0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 40/82] fix: copies of sequences shared the values of the
 original

---
 src/BKSequence.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..9afa131 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -122,9 +122,12 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
+
 		memcpy (copy -> values, sequence -> values, size);
 
 		* outCopy = copy;
@@ -365,9 +368,12 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
+
 		memcpy (copy -> values, sequence -> values, size);
 
 		* outCopy = copy;
-- 
2.43.0


From c01783632edf3c8c32488c45d9664fec20e8b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 41/82] fix: envelope starting at a large duty cycle overflowed

---
 src/BKSequence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 9afa131..58203a9 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -169,6 +169,9 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
 	BKInt shift    = 0;
 	BKInt maxValue = BKSequencePhaseGetMaxAbsValue (phases, length);
 
+	// envelope may start from current duty cycle
+	maxValue = BKMax (maxValue, BK_MAX_DUTY_CYCLE);
+
 	// shift must be smaller than maximum value
 	// reduce by one bit to allow enough delta to slide from maximum to minimum
 	while ((1 << shift) <= maxValue && shift < 30)
-- 
2.43.0


From cf2eb7ac2957f760006eba8ef57f4e3cace6dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 42/82] fix: copy of an instrument was not initialized

---
 src/BKInstrument.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..4e7cc79 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,9 +117,12 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	res = BKInstrumentInit (copy);
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	if (res < 0)
+		return res;
+
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
 	copy -> numSequences = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
@@ -128,8 +131,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
-- 
2.43.0


From 362b6b3c567a2e91bee57e3a8beac3c949a111d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 43/82] fix: period of low notes overflowed at high sample
 rates

---
 src/BKTrack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..5bcc9a6 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -131,8 +131,8 @@ static void BKTrackUpdateUnitVolume (BKTrack * track)
 
 static void BKTrackUpdateUnitNote (BKTrack * track)
 {
-	BKInt note;
-	BKInt period;
+	BKInt     note;
+	BKFUInt20 period;
 
 	if (track -> unit.ctx == NULL)
 		return;
-- 
2.43.0


From 7179ecda4f95eb7ba3a4ff353de909bae5fdfc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 44/82] fix: pitch did not take effect on the playing note and
 could not be read

---
 src/BKTrack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 5bcc9a6..257a3d3 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -721,10 +721,12 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 		}
 		case BK_PITCH: {
 			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_SAMPLE_PITCH: {
 			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
@@ -794,6 +796,10 @@ static BKInt BKTrackGetAttrInt (BKTrack const * track, BKEnum attr, BKInt * outV
 			value = track -> curNote;
 			break;
 		}
+		case BK_PITCH: {
+			value = track -> pitch;
+			break;
+		}
 		case BK_SAMPLE_PITCH: {
 			value = track -> samplePitch;
 			break;
-- 
2.43.0


From 99e124c89182ef7b7ca236b5ff9f07adc36281e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 45/82] fix: parameters of tremolo and vibrato were read back
 scaled

---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 257a3d3..29fbcce 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -956,14 +956,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From 0c4350f539528b6c674b5a9ff57d694f00a0d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 46/82] fix: negative arpeggio length was copied out of bounds

---
 src/BKTrack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 29fbcce..7c10fa5 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1036,7 +1036,7 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 					BKUInt  count    = 0;
 
 					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+						count = BKClamp (arpeggio [0], 0, BK_MAX_ARPEGGIO);
 
 					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
 
-- 
2.43.0


From 566cba382951e3eb76d8a7f52e02f1d045a07652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 47/82] fix: divider attributes smaller than 1 stopped the
 divider

---
 src/BKTrack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 7c10fa5..419e359 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -730,17 +730,17 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-			track -> arpeggioDivider.divider = value;
+			track -> arpeggioDivider.divider = BKMax (value, 1);
 			track -> arpeggioDivider.counter = 0;
 			break;
 		}
 		case BK_EFFECT_DIVIDER: {
-			track -> effectDivider.divider = value;
+			track -> effectDivider.divider = BKMax (value, 1);
 			track -> effectDivider.counter = 0;
 			break;
 		}
 		case BK_INSTRUMENT_DIVIDER: {
-			track -> instrDivider.divider = value;
+			track -> instrDivider.divider = BKMax (value, 1);
 			track -> instrDivider.counter = 0;
 			break;
 		}
-- 
2.43.0


From 2f1e60bb923aff49116fff83dee5f9d11ec84198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 48/82] fix: track attached to another context kept pitch and
 panning mode of the previous one

---
 src/BKTrack.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 419e359..0e1c2f8 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -518,10 +518,9 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 
 		BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
 
-		if (ctx -> numChannels == 2)
-			track -> flags |= (BKPanningEnabledFlag);
+		BKBitSetCond (track -> flags, BKPanningEnabledFlag, ctx -> numChannels == 2);
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From 4632ec1b5fe6802326830b718617a4d7c14b739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 49/82] fix: BKTrackSetPtr and BKTrackGetPtr ignored all values
 of effects and arpeggios

---
 src/BKTrack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 0e1c2f8..24404f7 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1056,7 +1056,7 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 
 BKInt BKTrackSetPtr (BKTrack * track, BKEnum attr, void * ptr)
 {
-	return BKTrackSetPtrObj (track, attr, ptr, 0);
+	return BKTrackSetPtrObj (track, attr, ptr, sizeof (BKInt [2]));
 }
 
 static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr, BKSize size)
@@ -1102,7 +1102,7 @@ static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr
 
 BKInt BKTrackGetPtr (BKTrack const * track, BKEnum attr, void * outPtr)
 {
-	return BKTrackGetPtrObj (track, attr, outPtr, 0);
+	return BKTrackGetPtrObj (track, attr, outPtr, sizeof (BKInt [2]));
 }
 
 BKClass BKTrackClass =
-- 
2.43.0


From ce26032b45a357824114f1331a3bd340f83ef008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 50/82] fix: frames which were not finished yet could be read
 from the buffer

---
 src/BKBuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..26cdb1f 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -136,7 +136,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 	BKInt   amp;
 
 	interlace = BKMax (interlace, 1);          // step must be at least 1
-	size      = BKMin (size, buf -> capacity); // can only read available frames
+	size      = BKMin (size, buf -> time >> BK_FINT20_SHIFT); // can only read available frames
 
 	while (frames < & buf -> frames [size]) {
 		accum -= (accum >> (BK_INT_SHIFT - BK_HIGH_PASS_SHIFT));  // apply high pass filter
-- 
2.43.0


From e02bb69a5f1e305acc0e551b7e9dcd8c2562d7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 51/82] fix: buffer lost fractions of frames when generating
 fractional periods

---
 src/BKBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 5b33bc3..82ef0d6 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -118,7 +118,7 @@ BK_INLINE BKInt BKBufferEnd (BKBuffer * buf, BKFUInt20 time)
 	BKUInt offset;
 
 	time   = buf -> time + time;
-	offset = time >> BK_FINT20_SHIFT;
+	offset = (time >> BK_FINT20_SHIFT) + ((time & BK_FINT20_FRAC) != 0); // round up
 
 	if (offset > buf -> capacity) {
 		buf -> capacity = offset;
-- 
2.43.0


From 5e87fcff7478e0ff370e0353ff30121cec326556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 52/82] fix: generating to a time skipped or repeated frames at
 clock ticks and left frames unread

---
 src/BKContext.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index f4f521c..d830f2a 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -315,11 +315,14 @@ BKInt BKContextGenerate (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write) (BKFrame inFrames [], BKUInt size, void * info), void * info)
 {
 	BKInt numFrames = 0;
-	BKTime deltaTime;
+	BKTime currentTime, deltaTime;
 	BKFUInt20 period;
 
-	while (BKTimeIsLess (ctx -> currentTime, endTime)) {
-		deltaTime = BKTimeSub (endTime, ctx -> currentTime);
+	// time of generated frames; clocks may be ahead
+	currentTime = BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime);
+
+	while (BKTimeIsLess (currentTime, endTime)) {
+		deltaTime = BKTimeSub (endTime, currentTime);
 
 		if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 			period = BKTimeGetFUInt20 (deltaTime);
@@ -329,17 +332,19 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 		}
 
 		BKContextEnd (ctx, period);
+		currentTime = BKTimeAddFUInt20 (currentTime, period);
 
 		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
+		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (currentTime, endTime)) {
 			BKInt size;
 			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-			size = BKContextRead (ctx, frames, BK_MAX_GENERATE_SAMPLES);
-			numFrames += size;
+			while ((size = BKContextRead (ctx, frames, BK_MAX_GENERATE_SAMPLES)) > 0) {
+				numFrames += size;
 
-			if (write (frames, size, info) != 0)
-				return BK_INVALID_RETURN_VALUE;
+				if (write (frames, size, info) != 0)
+					return BK_INVALID_RETURN_VALUE;
+			}
 		}
 	}
 
-- 
2.43.0


From 46ea93d4161337aa8d51d4ca9114987342bb1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 53/82] fix: negative signed 8 bit values were converted to
 wrong frames

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 90ae560..2ba4d41 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -511,7 +511,8 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					// -128 exceeds the frame range
+					outFrames [0] = BKMax ((* (signed char *) charData) * (BKInt) BK_FRAME_MAX / 127, -(BKInt) BK_FRAME_MAX - 1);
 				} else {
 					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
 				}
-- 
2.43.0


From 0ae683c53f317882f47b78029a20ffa61302e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 54/82] fix: cleared tracks did not update their note when
 their data changed

BKUnitClear replaced the data callback of the track with the one of the unit.
The length of a changed custom waveform was not respected anymore.
---
 src/BKUnit.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index d54b180..e4d113e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1257,8 +1257,6 @@ void BKUnitClear (BKUnit * unit)
 	unit -> sample.sustainEnd                 = 0;
 	unit -> sample.period                     = BK_FINT20_UNIT;
 	unit -> sample.timeFrac                   = 0;
-	unit -> sample.dataState.callback         = (void *) BKUnitSampleDataStateCallback;
-	unit -> sample.dataState.callbackUserInfo = unit;
 
 	// reset sample range
 	if (unit -> sample.dataState.data)
-- 
2.43.0


From 4c663bc500244e98f654a084b933d639ad524d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 55/82] fix: resetting a clock from its own callback changed
 its period

The time of the tick was compared with the reset time of the clock.
---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 7a23551..7026c8e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -214,6 +214,7 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 BKInt BKClockTick (BKClock * clock)
 {
 	BKInt result = 0;
+	BKTime time;
 	BKCallbackInfo info;
 
 	if (BKTimeIsEqual (clock -> time, clock -> nextTime)) {
@@ -221,6 +222,7 @@ BKInt BKClockTick (BKClock * clock)
 		info.object   = clock;
 		info.event    = BK_EVENT_CLOCK;
 		info.nextTime = clock -> time;
+		time          = clock -> time;
 
 		if (clock -> callback.func)
 			result = clock -> callback.func (& info, clock -> callback.userInfo);
@@ -229,15 +231,13 @@ BKInt BKClockTick (BKClock * clock)
 
 		clock -> counter ++;
 
-		// set next time and new period from callback
-		if (BKTimeIsGreater (info.nextTime, clock -> time)) {
-			clock -> period   = BKTimeSub (info.nextTime, clock -> time);
-			clock -> nextTime = info.nextTime;
-		}
-		// set next period
-		else {
-			clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
+		// set new period from callback
+		if (BKTimeIsGreater (info.nextTime, time)) {
+			clock -> period = BKTimeSub (info.nextTime, time);
 		}
+
+		// callback may have reset the clock
+		clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
 	}
 
 	return result;
-- 
2.43.0


From 7c43db07f8f46531111f4004401816ac191b0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 56/82] fix: arpeggio of new notes started with the offset of
 the previous note

A note started after an arpeggio was playing, or an arpeggio set after another
one was cleared, was played with the last offset of the old arpeggio.
---
 src/BKTrack.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 24404f7..4fef8ab 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -201,6 +201,16 @@ static void BKTrackUpdateIgnoreVolume (BKTrack * track)
 	BKBitSetCond (track -> flags, BKIgnoreVolumeFlag, ignoreVolume != 0);
 }
 
+static void BKTrackArpeggioRestart (BKTrack * track)
+{
+	BKArpeggioState * state = & track -> arpeggio;
+
+	state -> offset = 0;
+	state -> delta  = state -> count ? state -> notes [0] : 0;
+
+	track -> arpeggioDivider.counter = 0;
+}
+
 static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt count)
 {
 	BKArpeggioState * state = & track -> arpeggio;
@@ -211,6 +221,11 @@ static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt co
 		state -> offset = 0;
 	}
 
+	// next arpeggio starts from plain note
+	if (count == 0) {
+		state -> delta = 0;
+	}
+
 	memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
 	BKBitSetCond (track -> flags, BKArpeggioFlag, count > 0);
 
@@ -597,7 +612,7 @@ static void BKTrackSetNote (BKTrack * track, BKInt note)
 			if (track -> flags & BKInstrumentFlag)
 				BKTrackInstrumentAttack (track);
 
-			track -> arpeggio.offset = 0;
+			BKTrackArpeggioRestart (track);
 		}
 
 		if (track -> waveform == BK_SAMPLE) {
-- 
2.43.0


From 4483fe9a06988654991669739785ba72e493b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 57/82] fix: clocks and dividers detached in a callback along
 with their successor were still ticked

---
 src/BKClock.c   | 47 +++++++++++++++++++++++++----------------------
 src/BKClock.h   |  2 ++
 src/BKContext.c |  6 ++++++
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 7026c8e..59645bd 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -187,9 +187,15 @@ void BKClockAdvance (BKClock * clock, BKFUInt20 period)
 BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 {
 	BKInt reset = 0;
+	BKDivider      * nextDivider;
+	BKDividerGroup * group;
 
 	// tick each attached divider
-	for (; divider; divider = divider -> nextDivider) {
+	for (; divider; divider = nextDivider) {
+		group = divider -> group;
+		group -> tickDivider = divider;
+		group -> nextDivider = NULL;
+
 		if (divider -> counter <= 0) {
 			reset = 1;
 
@@ -206,6 +212,14 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 		}
 
 		divider -> counter --;
+
+		// divider may have been detached by its callback
+		if (group -> tickDivider)
+			nextDivider = divider -> nextDivider;
+		else
+			nextDivider = group -> nextDivider;
+
+		group -> tickDivider = NULL;
 	}
 
 	return reset;
@@ -283,27 +297,7 @@ BKInt BKDividerAlloc (BKDivider ** outDivider, BKUInt count, BKCallback * callba
 
 static void BKDividerDisposeObject (BKDivider * divider)
 {
-	BKDividerGroup * group = divider -> group;
-
-	if (divider -> group) {
-		if (divider -> prevDivider) {
-			divider -> prevDivider -> nextDivider = divider -> nextDivider;
-		}
-		// is first clock
-		else {
-			group -> firstDivider = divider -> nextDivider;
-		}
-
-		if (divider -> nextDivider) {
-			divider -> nextDivider -> prevDivider = divider -> prevDivider;
-		}
-		// is last clock
-		else {
-			group -> lastDivider = divider -> prevDivider;
-		}
-
-		divider -> group = NULL;
-	}
+	BKDividerDetach (divider);
 }
 
 BKInt BKDividerAttachToClock (BKDivider * divider, BKClock * clock)
@@ -341,6 +335,15 @@ void BKDividerDetach (BKDivider * divider)
 	BKDividerGroup * group = divider -> group;
 
 	if (group) {
+		// continue with next divider if currently ticking
+		if (divider == group -> tickDivider) {
+			group -> tickDivider = NULL;
+			group -> nextDivider = divider -> nextDivider;
+		}
+		else if (divider == group -> nextDivider) {
+			group -> nextDivider = divider -> nextDivider;
+		}
+
 		if (divider -> prevDivider) {
 			divider -> prevDivider -> nextDivider = divider -> nextDivider;
 		}
diff --git a/src/BKClock.h b/src/BKClock.h
index 7e21bd5..2a5df97 100644
--- a/src/BKClock.h
+++ b/src/BKClock.h
@@ -55,6 +55,8 @@ struct BKDividerGroup
 {
 	BKDivider * firstDivider;
 	BKDivider * lastDivider;
+	BKDivider * tickDivider;
+	BKDivider * nextDivider;
 };
 
 struct BKClock
diff --git a/src/BKContext.c b/src/BKContext.c
index d830f2a..8ae2887 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -369,6 +369,12 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 		for (clock = clocks; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
+			// clock was detached by callback; its next clock may not be valid anymore
+			if (clock -> ctx != ctx) {
+				ctx -> flags |= BK_CONTEXT_FLAG_CLOCK_RESET;
+				break;
+			}
+
 			// get next time to tick relative to time of clock
 			nextTime = BKTimeSub (clock -> nextTime, clock -> time);
 
-- 
2.43.0


From cdd3fd5c2f1a6b4207a483334eb08272210733fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 58/82] fix: saturate frames exceeding twice the full scale at
 the frame limits

The overflow was derived from bits above the frame width, so that such
frames became 32766 and -32767 instead of 32767 and -32768.
---
 src/BKBuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index 26cdb1f..0de4982 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -146,7 +146,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 
 		// clamp
 		if ((BKFrame) amp != amp)
-			amp = (amp >> BK_FRAME_SHIFT) ^ BK_FRAME_MAX;
+			amp = (amp >> (BK_INT_SHIFT - 1)) ^ BK_FRAME_MAX;
 
 		// write frame
 		(* outFrames) = amp;
-- 
2.43.0


From d1523f916555ca5ae4356bddfce44c4e3b5d2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 59/82] fix: clear sustain range of sample when another
 waveform is set

Otherwise a note of the new waveform was not silenced when released, and
an immediate release moved its phase out of the range of the waveform.
---
 src/BKUnit.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index e4d113e..8c1de30 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -95,6 +95,8 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.end         = data -> numFrames;
 					unit -> sample.frames      = data -> frames;
 					unit -> sample.repeatCount = 0;
+
+					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagRelease);
 				}
 				else {
 					return BK_INVALID_NUM_FRAMES;
@@ -465,6 +467,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				unit -> waveform    = value;
 			}
 
+			BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagRelease);
 			BKDataStateSetData (& unit -> sample.dataState, NULL);
 
 			break;
-- 
2.43.0


From 23c9dbecfde855a3019a406ac7529dbca1fa7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 60/82] fix: unit reset while attached restarted at the last
 frame instead of the context time

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 8c1de30..7dc03f2 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1276,7 +1276,7 @@ void BKUnitReset (BKUnit * unit)
 
 	unit -> waveform    = 0;
 	unit -> phase.phase = 0;
-	unit -> time = 0;
+	unit -> time        = unit -> ctx ? unit -> ctx -> deltaTime : 0; // continue at context time
 
 	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
 		unit -> lastPulse [i] = 0;
-- 
2.43.0


From 8bc9db2deebfc6a0ef80575e16dff84c615d4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 61/82] fix: clock attached as first or first clock detached in
 a callback was not considered until the next step

---
 src/BKContext.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 8ae2887..6cbe871 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -355,7 +355,7 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
  * Get next clock tick period of all clocks
  * Increment clock times by that period and set new time if some clock ticks
  */
-static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
+static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 {
 	BKClock * clock;
 	BKTime    nextTime;
@@ -366,7 +366,7 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 		deltaTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
-		for (clock = clocks; clock; clock = clock -> nextClock) {
+		for (clock = ctx -> firstClock; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
 			// clock was detached by callback; its next clock may not be valid anymore
@@ -392,7 +392,7 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 	}
 
 	// advance
-	for (clock = clocks; clock; clock = clock -> nextClock)
+	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockAdvance (clock, period);
 
 	ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, period);
@@ -409,7 +409,7 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 	if (ctx -> firstClock) {
 		for (time = ctx -> deltaTime; time < endTime;) {
 			result = 0;
-			clockDelta = BKClocksAdvance (ctx, ctx -> firstClock, & result);
+			clockDelta = BKClocksAdvance (ctx, & result);
 
 			if (result < 0)
 				return result;
-- 
2.43.0


From fd20d7da4cc0c41c705e104caeb86ce3953fbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 62/82] fix: data stayed linked to a unit cleared while
 detached

---
 src/BKUnit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 7dc03f2..4023568 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1247,6 +1247,7 @@ void BKUnitClear (BKUnit * unit)
 {
 	BKUnitSetData (unit, BK_WAVEFORM, NULL);
 	BKUnitSetData (unit, BK_SAMPLE, NULL);
+	BKDataStateSetData (& unit -> sample.dataState, NULL); // also if not attached
 
 	unit -> object.flags    &= BKUnitFlagsClearMask;
 	unit -> phase.wrap      = 0;
-- 
2.43.0


From 850ac00da16cc73bd346a9a62bb14520523a8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 63/82] fix: held sample ended or restarted when its sustain
 range reaches the end of the sample

---
 src/BKUnit.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 4023568..1bd7350 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1134,7 +1134,6 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 	BKInt      volume;
 	BKBuffer * channel;
 	BKInt      pulse, delta, chanDelta;
-	BKInt      checkBounds;
 	BKFrame  * frames;
 
 	// muted
@@ -1147,8 +1146,6 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 		return endTime;
 	}
 
-	checkBounds = (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
-
 	for (time = unit -> time; time < endTime; time += BK_FINT20_UNIT) {
 		frames = & unit -> sample.frames [unit -> phase.phase * unit -> sample.numChannels];
 
@@ -1171,15 +1168,8 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 		unit -> phase.phase += (unit -> sample.timeFrac >> BK_FINT20_SHIFT) - (lastTime >> BK_FINT20_SHIFT);
 		unit -> sample.timeFrac &= BK_FINT20_FRAC;
 
-		// check phase boundary
-		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
-			if (BKUnitResetSample (unit) == 1) {
-				break;
-			}
-		}
-
 		// check for sustain range boundary
-		if (checkBounds) {
+		if ((unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease)) {
 			if (unit -> sample.period > 0) {
 				if ((BKInt) unit -> phase.phase >= (BKInt) unit -> sample.sustainEnd) {
 					unit -> phase.phase = unit -> sample.sustainOffset;
@@ -1191,6 +1181,13 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 				}
 			}
 		}
+
+		// check phase boundary
+		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
+			if (BKUnitResetSample (unit) == 1) {
+				break;
+			}
+		}
 	}
 
 	return time;
-- 
2.43.0


From a3ea53fc26d20676e3b681ccf46d8c10bcffda64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 64/82] fix: empty sample range set by the sample callback
 never returned

---
 src/BKUnit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 1bd7350..6b75b44 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1043,6 +1043,12 @@ static BKInt BKUnitWrapSamplePhase (BKUnit * unit, BKInt min, BKInt max)
 	BKInt resetDir = 0;
 	BKInt length   = max - min;
 
+	// range is empty
+	if (length <= 0) {
+		unit -> phase.phase = min;
+		return 0;
+	}
+
 	// reset if phase exceeds end
 	if ((BKInt) unit -> phase.phase >= max) {
 		// phase %= length
-- 
2.43.0


From 7de909b0fde5720b7353229142c2859dd66ab483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 65/82] fix: setting the phase wrap restarted samples

---
 src/BKUnit.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 6b75b44..6c24754 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -497,7 +497,11 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 		}
 		case BK_PHASE_WRAP: {
 			value = value ? BKMax (value, 2) : 0;
-			unit -> phase.phase     = 0;
+
+			// samples are not affected
+			if (unit -> waveform != BK_SAMPLE)
+				unit -> phase.phase = 0;
+
 			unit -> phase.wrap      = value;
 			unit -> phase.wrapCount = value;
 			break;
-- 
2.43.0


From 1f86ce0010b6e487b80850cc53876f84223bf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 66/82] fix: notes started the sample in the direction in which
 the previous note ended

---
 src/BKUnit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 6c24754..ee44f1a 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -481,9 +481,11 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value < 0) {
 					if (unit -> sample.end > unit -> sample.offset) {
 						value = 0;
+						unit -> sample.period = BKAbs (unit -> sample.period);
 					}
 					else {
 						value = unit -> sample.length - 1;
+						unit -> sample.period = -BKAbs (unit -> sample.period);
 					}
 				}
 
-- 
2.43.0


From 5f07f12b4b8b120e492270ba603628e44eed5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 67/82] fix: sustain range of data objects was not copied when
 setting the sample

---
 src/BKUnit.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index ee44f1a..717eef3 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -141,6 +141,13 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+
+					// use sustain range of data
+					if (data -> sustainOffset < BKMin (data -> sustainEnd, data -> numFrames)) {
+						unit -> sample.sustainOffset = data -> sustainOffset;
+						unit -> sample.sustainEnd    = BKMin (data -> sustainEnd, data -> numFrames);
+						BKBitSet (unit -> object.flags, BKUnitFlagSampleSustainRange);
+					}
 				}
 			}
 			// disable sample
-- 
2.43.0


From 51598ee7cf73c0bb9d773f4c8f614774cdbfdbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 68/82] fix: sample ranges set by the callback when a sample
 begins referred to the previous data

---
 src/BKUnit.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 717eef3..6a0e3cd 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -138,8 +138,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.sustainOffset = 0;
 					unit -> sample.sustainEnd    = 0;
 
-					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
 
 					// use sustain range of data
@@ -148,6 +146,12 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 						unit -> sample.sustainEnd    = BKMin (data -> sustainEnd, data -> numFrames);
 						BKBitSet (unit -> object.flags, BKUnitFlagSampleSustainRange);
 					}
+
+					// callback may change attributes of the sample
+					if (unit -> sample.dataState.data != data)
+						BKDataStateSetData (& unit -> sample.dataState, data);
+
+					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 				}
 			}
 			// disable sample
-- 
2.43.0


From 2c284b988f01d2cfba4eeea91ee175a2ad461731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 69/82] fix: phase exceeded sample range changed by the
 callback when a sample begins

---
 src/BKUnit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 6a0e3cd..c427827 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -488,6 +488,9 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				value = BKClamp (value, 0, unit -> phase.count - 1);
 			}
 			else {
+				// callback may change sample range
+				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+
 				// reset to sample start
 				if (value < 0) {
 					if (unit -> sample.end > unit -> sample.offset) {
@@ -501,7 +504,6 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				}
 
 				value = BKClamp (value, 0, unit -> sample.length - 1);
-				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 			}
 
 			unit -> phase.phase = value;
-- 
2.43.0


From 22d28e9b59a6558c1386ec4077b9d4311e58e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 70/82] fix: copy of a data object without frames failed after
 it was normalized or converted

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 2ba4d41..c2f2900 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -196,7 +196,7 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 	copy -> stateList    = NULL;
 	copy -> frames       = NULL;
 
-	if (original -> frames)
+	if (original -> numFrames)
 		res = BKDataSetFrames (copy, original -> frames, original -> numFrames, original -> numChannels, 1);
 
 	if (res < 0)
-- 
2.43.0


From d243b2d7316b5e6d061a8c6e2ea7ae50086f20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 71/82] fix: large raw data is taken for a short sample

The number of bits was counted in 32 bits, so that data of 256 MiB or more
was refused, or silently cut to a few frames.
---
 src/BKData.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index c2f2900..1976fdf 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -441,9 +441,9 @@ static BKInt BKDataNumBitsFromParam (BKEnum param, BKUInt * outNumBits, BKInt *
 
 static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
 {
-	BKInt numFrames = 0;
+	uint64_t numFrames = 0;
 	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
+	uint64_t dataSizeBits = (uint64_t) dataSize * 8;
 
 	if (numBits <= 8) {
 		packetSize = (numBits * numChannels);
@@ -455,7 +455,12 @@ static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBit
 
 	numFrames = dataSizeBits / packetSize * numChannels;
 
-	return numFrames;
+	// more than can be counted
+	if (numFrames > BK_INT_MAX - 7) {
+		return 0;
+	}
+
+	return (BKInt) numFrames;
 }
 
 static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUInt dataSize, BKUInt numBits, BKInt isSigned, BKInt reverseEndian, BKUInt numChannels)
@@ -566,7 +571,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 		return BK_INVALID_NUM_FRAMES;
 
 	// convert only complete frames
-	dataSize = ((BKUInt) numFrames * numBits + 7) / 8;
+	dataSize = (BKUInt) (((uint64_t) numFrames * numBits + 7) / 8);
 
 	if (data -> object.flags & BK_DATA_FLAG_COPY) {
 		frames = realloc (data -> frames, (numFrames + 7) * sizeof (BKFrame));
-- 
2.43.0


From c25dba1a5d6256c0aea4f867eb3c43a55584bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 72/82] fix: size of copied frames is cut to 32 bits

A copy of 4 GiB or more got a block of the remainder, but all frames were
claimed.
---
 src/BKData.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 1976fdf..8267b9e 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -333,7 +333,7 @@ static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr)
 
 BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames, BKUInt numChannels, BKInt copy)
 {
-	BKUInt    size;
+	BKSize    size;
 	BKFrame * newFrames;
 
 	if (frames == NULL)
@@ -346,7 +346,7 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
 		return BK_INVALID_NUM_CHANNELS;
 
-	size = numFrames * numChannels * sizeof (BKFrame);
+	size = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 
 	if (copy) {
 		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-- 
2.43.0


From 7011163e3d47b59bb1e3e2e0e704dc11c5f784b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 73/82] fix: a raw file of more than 4 GiB is taken for the
 remainder

---
 src/BKData.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 8267b9e..75c637e 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -618,6 +618,11 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	}
 
 	size -= offset;
+
+	if (size > (BKUInt) -1) {
+		return BK_INVALID_NUM_FRAMES;
+	}
+
 	frames = malloc (size);
 
 	if (frames == NULL) {
-- 
2.43.0


From 261791fab221e3acf328a0a1ffb133866327a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 74/82] fix: envelope phases of more than 2147483647 steps

The steps are unsigned but were used as signed: such a phase jumped to its end
value after one tick, and a sustain range whose steps add up to a multiple of
2^32 was refused as having no steps.
---
 src/BKSequence.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 58203a9..94ea77d 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -187,19 +187,16 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
  */
 static BKInt BKSequenceEnvelopeCheckValues (BKSequencePhase const * values, BKUInt length, BKUInt sustainOffset, BKUInt sustainLength)
 {
-	BKInt steps = 0;
-
 	if (sustainOffset == length)
 		return 0;
 
 	// check sustain sequence step length
-	for (BKInt i = sustainOffset; i < sustainOffset + sustainLength; i ++)
-		steps += values [i].steps;
-
-	if (steps == 0)
-		return BK_INVALID_VALUE;
+	for (BKInt i = sustainOffset; i < sustainOffset + sustainLength; i ++) {
+		if (values [i].steps)
+			return 0;
+	}
 
-	return 0;
+	return BK_INVALID_VALUE;
 }
 
 static BKInt BKSequenceFuncEnvelopeCreate (BKSequence ** outSequence, BKSequenceFuncs const * funcs, void const * values, BKUInt length, BKUInt sustainOffset, BKUInt sustainLength)
@@ -275,9 +272,9 @@ static BKEnum BKSequenceFuncEnvelopeStep (BKSequenceState * state, BKEnum level)
 			BKSequencePhase * phase = & phases [state -> offset];
 
 			if (phase -> steps) {
-				state -> steps = phase -> steps;
+				state -> steps = phase -> steps < BK_INT_MAX ? phase -> steps : BK_INT_MAX;
 				state -> endValue = phase -> value << sequence -> fracShift;
-				state -> delta = (state -> endValue - state -> shiftedValue) / (BKInt) phase -> steps;
+				state -> delta = (state -> endValue - state -> shiftedValue) / state -> steps;
 			}
 			else {
 				state -> shiftedValue = (phase -> value << sequence -> fracShift);
-- 
2.43.0


From 1e949959db971bea8bce454112e57774db777201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 75/82] fix: frames replaced by a part of themselves were used
 after being freed

---
 src/BKData.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 75c637e..1ee7dd3 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -349,19 +349,18 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	size = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 
 	if (copy) {
-		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-			newFrames = realloc (data -> frames, size);
-		}
-		else {
-			newFrames = malloc (size);
-		}
+		newFrames = malloc (size);
 
 		if (newFrames == NULL)
 			return -1;
 
-		data -> object.flags |= BK_DATA_FLAG_COPY;
-
 		memcpy (newFrames, frames, size);
+
+		// frames may be part of the current ones
+		if (data -> object.flags & BK_DATA_FLAG_COPY)
+			free (data -> frames);
+
+		data -> object.flags |= BK_DATA_FLAG_COPY;
 	}
 	else {
 		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-- 
2.43.0


From 99450f15cea98e593e6b43b7efaa3e076c42f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 76/82] fix: sample callback which sets another waveform left
 freed frames in use

---
 src/BKUnit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index c427827..b07d78e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1100,6 +1100,12 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 
 	if (unit -> sample.callback.func) {
 		repeatMode = BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_RESET);
+
+		// another waveform was set
+		if (unit -> waveform != BK_SAMPLE) {
+			BKSetAttr (unit, BK_MUTE, 1);
+			return 1;
+		}
 	}
 
 	resetDir = BKUnitWrapSamplePhase (unit, 0, unit -> sample.length);
-- 
2.43.0


From bad94a6f4af0845d342fafb7da94d9ec74f93f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 77/82] fix: phase of a waveform set by the sample callback
 exceeded its table

---
 src/BKUnit.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index b07d78e..9e886ba 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -484,13 +484,15 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_PHASE: {
+			if (unit -> waveform == BK_SAMPLE) {
+				// callback may change sample range or set another waveform
+				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+			}
+
 			if (unit -> waveform != BK_SAMPLE) {
 				value = BKClamp (value, 0, unit -> phase.count - 1);
 			}
 			else {
-				// callback may change sample range
-				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
 				// reset to sample start
 				if (value < 0) {
 					if (unit -> sample.end > unit -> sample.offset) {
-- 
2.43.0


From ce1e73fb2899318dd58e3ecc8f884e111e71746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 78/82] fix: sample set by the callback of another sample was
 not updated with its data

---
 src/BKUnit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 9e886ba..e58de4b 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -186,8 +186,9 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
 
 	if (res == 0) {
+		// sample is already set and may have been changed by its callback;
 		// keep data which is used otherwise
-		if (data || (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE))
+		if (data ? type != BK_SAMPLE : (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE))
 			BKDataStateSetData (& unit -> sample.dataState, data);
 	}
 	// unset data when failed
-- 
2.43.0


From 56b03a0738e7f204aac3c38c78667e55f5eddf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 79/82] fix: users behind one which removed itself were lost
 when sample data changed

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 1ee7dd3..a9e0416 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -130,7 +130,8 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 			state -> nextState = NULL;
 			state -> data      = NULL;
 		}
-		else {
+		// callback may have removed state
+		else if (state -> data == data) {
 			prevState = state;
 		}
 	}
-- 
2.43.0


From 2e841995bad4415455f73a6a2df8a615c1e0e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 80/82] fix: users which set other data in their callback
 remained with data being changed

---
 src/BKData.c | 36 +++++++++++++-----------------------
 src/BKData.h |  1 +
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index a9e0416..5426a6b 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -43,7 +43,7 @@ static void BKDataStateAddToData (BKDataState * state, BKData * data)
 {
 	BKDataState * lastState;
 
-	if (state -> data == NULL && data && (data -> object.flags & BKObjectFlagLocked) == 0) {
+	if (state -> data == NULL && data) {
 		// search for last state in  list
 		for (lastState = data -> stateList; lastState && lastState -> nextState;)
 			lastState = lastState -> nextState;
@@ -70,7 +70,11 @@ static void BKDataStateRemoveFromData (BKDataState * state)
 	BKData      * data = state -> data;
 	BKDataState * searchState, * prevState = NULL;
 
-	if (data != NULL && (data -> object.flags & BKObjectFlagLocked) == 0) {
+	if (data != NULL) {
+		// states are being notified
+		if (data -> nextState == state)
+			data -> nextState = state -> nextState;
+
 		// search for state and previous state
 		for (searchState = data -> stateList; searchState; searchState = searchState -> nextState) {
 			if (searchState == state)
@@ -101,13 +105,12 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 	BKInt res;
 	BKInt dispose;
 	BKDataState * state;
-	BKDataState * nextState, * prevState = NULL;
-
-	data -> object.flags |= BKObjectFlagLocked;
 
-	for (state = data -> stateList; state; state = nextState) {
+	for (state = data -> stateList; state; state = data -> nextState) {
 		dispose = 0;
-		nextState = state -> nextState;
+
+		// changes if callback removes this state
+		data -> nextState = state -> nextState;
 
 		if (state -> callback) {
 			res = state -> callback (event, state -> callbackUserInfo);
@@ -120,23 +123,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 		if (event == BK_DATA_STATE_EVENT_DISPOSE)
 			dispose = 1;
 
-		if (dispose) {
-			if (prevState)
-				prevState -> nextState = nextState;
-
-			if (data -> stateList == state)
-				data -> stateList = state -> nextState;
-
-			state -> nextState = NULL;
-			state -> data      = NULL;
-		}
-		// callback may have removed state
-		else if (state -> data == data) {
-			prevState = state;
-		}
+		// callback may have set other data
+		if (dispose && state -> data == data)
+			BKDataStateRemoveFromData (state);
 	}
-
-	data -> object.flags &= ~BKObjectFlagLocked;
 }
 
 static BKInt BKDataPromoteToCopy (BKData * data)
diff --git a/src/BKData.h b/src/BKData.h
index 89679c0..3d5e8ea 100644
--- a/src/BKData.h
+++ b/src/BKData.h
@@ -90,6 +90,7 @@ struct BKData
 	BKUInt        sustainEnd;    ///< Sustain range end.
 	BKFrame     * frames;        ///< The frames.
 	BKDataState * stateList;     ///< The states.
+	BKDataState * nextState;     ///< The next state to be notified.
 };
 
 /**
-- 
2.43.0


From 8e4415d003aa6bd2e306c80d97d59827db98b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:00 +0000
Subject: [PATCH 81/82] fix: WAV files with an odd number of data bytes had no
 pad byte

---
 src/BKWaveFileWriter.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index b9435b0..6340440 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -178,6 +178,13 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 		}
 	}
 
+	// overwrite pad byte
+	if ((writer -> object.flags & BKWaveFileFlagTerminated) && (writer -> dataSize & 1)) {
+		if (fseek (writer -> file, writer -> initOffset + 8 + writer -> fileSize, SEEK_SET) != 0) {
+			return BK_FILE_ERROR;
+		}
+	}
+
 	dataSize = (numBits / 8) * numFrames;
 
 	//float f = 0.0;
@@ -233,7 +240,7 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	}
 
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
-	chunkSize = (uint32_t) writer -> fileSize;
+	chunkSize = (uint32_t) (writer -> fileSize + (writer -> dataSize & 1));
 
 	if (writer -> reverseEndian) {
 		chunkSize = BKInt32Reverse (chunkSize);
@@ -258,6 +265,14 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		return BK_FILE_ERROR;
 	}
 
+	// chunks are aligned to 2 bytes
+	if (writer -> dataSize & 1) {
+		if (fseek (writer -> file, writer -> initOffset + 8 + writer -> fileSize, SEEK_SET) != 0
+			|| fputc (0, writer -> file) == EOF) {
+			return BK_FILE_ERROR;
+		}
+	}
+
 	if (fseek (writer -> file, 0, SEEK_END) != 0 || fflush (writer -> file) != 0) {
 		return BK_FILE_ERROR;
 	}
-- 
2.43.0


From b8b607b4385bae094980cddadc8a8a70bf560596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 82/82] fix: WAV writer continues behind the written frames
 after being terminated

---
 src/BKWaveFileWriter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 6340440..18a8e17 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -273,7 +273,10 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		}
 	}
 
-	if (fseek (writer -> file, 0, SEEK_END) != 0 || fflush (writer -> file) != 0) {
+	// end of written data; file may have been longer before
+	offset = writer -> initOffset + 8 + writer -> fileSize + (writer -> dataSize & 1);
+
+	if (fseek (writer -> file, offset, SEEK_SET) != 0 || fflush (writer -> file) != 0) {
 		return BK_FILE_ERROR;
 	}
 
-- 
2.43.0

