From 9b37240f38a258a4872162dfc18b07f1cc83eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 01/73] fix: LZ77 special distances are at least one

With a small distance multiplier a special distance can come out as zero or
negative; it then has to be read as a distance of one.
---
 entropy/EntropyStream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 3917298..35befff 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -351,6 +351,9 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 			distance++
 		} else if distance < 120 {
 			distance = SPECIAL_DISTANCES[distance][0] + distanceMultiplier*SPECIAL_DISTANCES[distance][1]
+			if distance < 1 {
+				distance = 1
+			}
 		} else {
 			distance -= 119
 		}
-- 
2.43.0


From e1ed137c6f4bb9b5a2a69a920f6fd6daf2191e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 02/73] fix: ShowBits near the end of the stream

A peek that reaches past the end failed although enough bits for the next
prefix code were left, and it left the reader at the wrong position.
---
 jxlio/bitreader.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 48ca4ab..dad6dec 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -388,19 +388,43 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	oldIndex := br.index
 	oldBitsRead := br.bitsRead
 
-	b, err := br.ReadBits(uint32(bits))
-	if err != nil {
-		return 0, err
+	restore := func() error {
+		if _, err := br.Seek(curPos, io.SeekStart); err != nil {
+			return err
+		}
+		br.currentByte = oldCur
+		br.index = oldIndex
+		br.bitsRead = oldBitsRead
+		return nil
 	}
 
-	_, err = br.Seek(curPos, io.SeekStart)
-	if err != nil {
+	b, readErr := br.ReadBits(uint32(bits))
+	if err := restore(); err != nil {
 		return 0, err
 	}
-	br.currentByte = oldCur
-	br.index = oldIndex
-	br.bitsRead = oldBitsRead
+	if readErr == nil {
+		return b, nil
+	}
+	if !errors.Is(readErr, io.EOF) {
+		return 0, readErr
+	}
 
+	// Fewer than the requested bits are left: the missing ones show as zero.
+	b = 0
+	shown := 0
+	for ; shown < bits; shown++ {
+		bit, err := br.readBit()
+		if err != nil {
+			break
+		}
+		b |= uint64(bit) << shown
+	}
+	if err := restore(); err != nil {
+		return 0, err
+	}
+	if shown == 0 {
+		return 0, readErr
+	}
 	return b, nil
 }
 
-- 
2.43.0


From 8067de9a72fac1636e5f01448dcf36b4a501febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 03/73] fix: SkipBits counts the whole bytes it skips and reads
 them fully

---
 jxlio/bitreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index dad6dec..253004d 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -433,11 +433,12 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 	numBytes := bits / 8
 	if numBytes > 0 {
 		buffer := make([]byte, numBytes)
-		_, err := br.stream.Read(buffer)
+		_, err := io.ReadFull(br.stream, buffer)
 		if err != nil {
 			return err
 		}
 		br.currentByte = buffer[numBytes-1]
+		br.bitsRead += uint64(numBytes) * 8
 	}
 
 	// read bits so we can keep track of where we are.
-- 
2.43.0


From ad84ffe2ef1a42aad85d142ee91d28502666bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 04/73] fix: squeeze parameters use offset and bit count pairs

---
 frame/ModularStream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c7d5ff3..5c063af 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -52,13 +52,13 @@ func NewSqueezeParam(reader jxlio.BitReader) (SqueezeParam, error) {
 	if sp.inPlace, err = reader.ReadBool(); err != nil {
 		return sp, err
 	}
-	if beginC, err := reader.ReadU32(3, 6, 10, 13, 0, 8, 72, 1096); err != nil {
+	if beginC, err := reader.ReadU32(0, 3, 8, 6, 72, 10, 1096, 13); err != nil {
 		return sp, err
 	} else {
 		sp.beginC = int(beginC)
 	}
 
-	if numC, err := reader.ReadU32(0, 0, 0, 4, 1, 2, 3, 4); err != nil {
+	if numC, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 4); err != nil {
 		return sp, err
 	} else {
 		sp.numC = int(numC)
-- 
2.43.0


From d7592b28565e655e424a762958557a4cc968a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 05/73] fix: default squeeze is derived from the first non-meta
 channel

---
 frame/ModularStream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 5c063af..8284eeb 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -265,7 +265,10 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			if len(ms.transforms[i].sp) == 0 {
 				first := ms.nbMetaChannels
 				count := len(ms.channels) - first
-				size := ms.channels[0].size
+				if count == 0 {
+					return nil, errors.New("squeeze without channels")
+				}
+				size := ms.channels[first].size
 				if count > 2 && size.Width == ms.channels[first+1].size.Width && size.Height == ms.channels[first+1].size.Height {
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: true, inPlace: false, beginC: first + 1, numC: 2})
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: false, inPlace: false, beginC: first + 1, numC: 2})
-- 
2.43.0


From 31bf1cfec4a15eb062e707fe00a4bda98c314bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 06/73] fix: inverse palette inserts its channels without
 overwriting the next ones

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 8284eeb..bf04397 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -526,7 +526,7 @@ func (ms *ModularStream) applyTransforms() error {
 			firstChannel := ms.channels[first]
 			c0 := ms.channels[0]
 			for j := first + 1; j <= last; j++ {
-				ms.channels = util.Add(ms.channels, j, NewModularChannelFromChannel(*firstChannel))
+				ms.channels = util.AddToSlice(ms.channels, j, NewModularChannelFromChannel(*firstChannel))
 			}
 			for c := 0; c < ms.transforms[i].numC; c++ {
 				ch := ms.channels[first+c]
-- 
2.43.0


From 45a9573c0f97934c6bcd5c9f58d34bb00a5a36bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 07/73] fix: implicit palette colours below three bits per
 sample

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index bf04397..7eaff93 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -522,7 +522,7 @@ func (ms *ModularStream) applyTransforms() error {
 			first := ms.transforms[i].beginC + 1
 			endC := ms.transforms[i].beginC + ms.transforms[i].numC - 1
 			last := endC + 1
-			bitDepth := ms.frame.getGlobalMetadata().BitDepth.BitsPerSample
+			bitDepth := int32(ms.frame.getGlobalMetadata().BitDepth.BitsPerSample)
 			firstChannel := ms.channels[first]
 			c0 := ms.channels[0]
 			for j := first + 1; j <= last; j++ {
-- 
2.43.0


From 64d75dd8e88b20499abcb323c842174ff61e90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 08/73] fix: delta palette predicts weighted from the decoded
 colours

---
 frame/ModularChannel.go | 26 ++++++++++++++++++--------
 frame/ModularStream.go  | 13 +++++++++++++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index f36a97b..7e11ea2 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -132,6 +132,22 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 	}
 }
 
+// allocateWP prepares the state of the self-correcting predictor.
+func (mc *ModularChannel) allocateWP() {
+	mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
+	mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
+	mc.subpred = make([]int32, 4)
+	mc.weight = make([]int32, 4)
+}
+
+// updateWP records how far the predictions for (x, y) were from its value.
+func (mc *ModularChannel) updateWP(x int32, y int32, trueValue int32) {
+	for e := 0; e < 4; e++ {
+		mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
+	}
+	mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+}
+
 func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (int32, error) {
 
 	n3 := mc.north(x, y) << 3
@@ -426,10 +442,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 	tree = tree.compactify(channelIndex, streamIndex)
 	useWP := mc.forceWP || tree.useWeightedPredictor()
 	if useWP {
-		mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
-		mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
-		mc.subpred = make([]int32, 4)
-		mc.weight = make([]int32, 4)
+		mc.allocateWP()
 	} else {
 		wpParams = nil
 	}
@@ -468,10 +481,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 			trueValue := diff + p
 			mc.buffer[y][x] = trueValue
 			if useWP {
-				for e := 0; e < 4; e++ {
-					mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
-				}
-				mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+				mc.updateWP(x, y, trueValue)
 			}
 		}
 	}
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 7eaff93..52df50d 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -530,6 +530,11 @@ func (ms *ModularStream) applyTransforms() error {
 			}
 			for c := 0; c < ms.transforms[i].numC; c++ {
 				ch := ms.channels[first+c]
+				// the self-correcting predictor runs on the colours, not on the indices
+				useWP := ms.transforms[i].dPred == 6 && ms.wpParams != nil
+				if useWP {
+					ch.allocateWP()
+				}
 				for y := uint32(0); y < firstChannel.size.Height; y++ {
 					for x := uint32(0); x < firstChannel.size.Width; x++ {
 						index := ch.buffer[y][x]
@@ -562,6 +567,11 @@ func (ms *ModularStream) applyTransforms() error {
 							value = 0
 						}
 						ch.buffer[y][x] = value
+						if useWP {
+							if _, err := ch.prePredictWP(ms.wpParams, int32(x), int32(y)); err != nil {
+								return err
+							}
+						}
 						if isDelta {
 							pred, err := ch.prediction(int32(y), int32(x), int32(ms.transforms[i].dPred))
 							if err != nil {
@@ -569,6 +579,9 @@ func (ms *ModularStream) applyTransforms() error {
 							}
 							ch.buffer[y][x] += pred
 						}
+						if useWP {
+							ch.updateWP(int32(x), int32(y), ch.buffer[y][x])
+						}
 					}
 				}
 			}
-- 
2.43.0


From 6d97a8ddd5b56f33b983d563ed6a2c7cd6b83774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 09/73] fix: sections are looked up through the permutation of
 the table of contents

---
 frame/Frame.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frame/Frame.go b/frame/Frame.go
index 67ccedf..28ba4bc 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -308,6 +308,9 @@ func (f *Frame) getBitreader(index int) (jxlio.BitReader, error) {
 		i = 0
 	} else {
 		i = uint32(index)
+		if f.permutatedTOC {
+			i = f.tocPermutation[index]
+		}
 	}
 
 	return f.bitreaders[i], nil
-- 
2.43.0


From 48243079a39d28141dd9278f389c3ce8a6e4e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 10/73] fix: LF groups take and return their own part of each
 channel

---
 frame/Frame.go | 88 ++++++++++++++++++++++++--------------------------
 1 file changed, 42 insertions(+), 46 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 28ba4bc..a0c86cb 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -540,6 +540,35 @@ func (f *Frame) GetPaddedFrameSize() (util.Dimension, error) {
 	}
 }
 
+// channelPart gives the position and size of the part of a channel that lies
+// in the group at the given place in a grid of groups of groupDim pixels. The
+// result is false if that part is empty, in which case it is not coded.
+func channelPart(ch *ModularChannel, groupPos util.Point, groupDim uint32) (ModularChannel, bool) {
+	height := groupDim >> ch.vshift
+	width := groupDim >> ch.hshift
+	y := uint32(groupPos.Y) * height
+	x := uint32(groupPos.X) * width
+	if height == 0 || width == 0 || y >= ch.size.Height || x >= ch.size.Width {
+		return ModularChannel{}, false
+	}
+	return ModularChannel{
+		hshift: ch.hshift,
+		vshift: ch.vshift,
+		origin: util.Point{Y: int32(y), X: int32(x)},
+		size: util.Dimension{
+			Height: util.Min(height, ch.size.Height-y),
+			Width:  util.Min(width, ch.size.Width-x),
+		},
+	}, true
+}
+
+// copyPart copies a decoded part of a channel to its place.
+func copyPart(ch *ModularChannel, origin util.Point, part *ModularChannel) {
+	for y, row := range part.buffer {
+		copy(ch.buffer[y+int(origin.Y)][origin.X:], row)
+	}
+}
+
 func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	lfReplacementChannels := []*ModularChannel{}
@@ -550,34 +579,13 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 		if !ch.decoded {
 			if ch.hshift >= 3 && ch.vshift >= 3 {
 				lfReplacementChannelIndicies = append(lfReplacementChannelIndicies, i)
-				height := f.Header.lfGroupDim >> ch.vshift
-				width := f.Header.lfGroupDim >> ch.hshift
-				lfReplacementChannels = append(lfReplacementChannels, NewModularChannelWithAllParams(int32(height), int32(width), ch.vshift, ch.hshift, false))
+				lfReplacementChannels = append(lfReplacementChannels, ch)
 			}
 		}
 	}
 
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
 
-	// Hoist invariant computation out of the loop
-	frameSize, err := f.GetPaddedFrameSize()
-	if err != nil {
-		return err
-	}
-
-	// Pre-compute lfHeight/lfWidth for each replacement channel (invariant per channel)
-	numReplacements := len(lfReplacementChannels)
-	lfHeights := make([]uint32, numReplacements)
-	lfWidths := make([]uint32, numReplacements)
-	templateHeights := make([]uint32, numReplacements)
-	templateWidths := make([]uint32, numReplacements)
-	for i, r := range lfReplacementChannels {
-		lfHeights[i] = frameSize.Height >> r.vshift
-		lfWidths[i] = frameSize.Width >> r.hshift
-		templateHeights[i] = r.size.Height
-		templateWidths[i] = r.size.Width
-	}
-
 	errChan := make(chan error, f.numLFGroups)
 	var wg sync.WaitGroup
 	// Ensure at least 1 goroutine
@@ -606,24 +614,12 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 			lfGroupPos := f.getLFGroupLocation(int32(id))
 
-			// Pre-allocate with correct capacity, use index assignment instead of append
-			replaced := make([]ModularChannel, numReplacements)
-			for i, r := range lfReplacementChannels {
-				// Copy the template channel directly instead of calling NewModularChannelFromChannel
-				replaced[i] = ModularChannel{
-					size:    r.size,
-					origin:  r.origin,
-					hshift:  r.hshift,
-					vshift:  r.vshift,
-					decoded: r.decoded,
-					// buffer is nil - will be allocated by NewLFGroupWithReader if needed
+			replaced := make([]ModularChannel, 0, len(lfReplacementChannels))
+			for _, r := range lfReplacementChannels {
+				// buffer is nil - will be allocated by NewLFGroupWithReader if needed
+				if part, ok := channelPart(r, *lfGroupPos, f.Header.lfGroupDim); ok {
+					replaced = append(replaced, part)
 				}
-
-				// Update origin and size for this specific LF group
-				replaced[i].origin.Y = lfGroupPos.Y * int32(templateHeights[i])
-				replaced[i].origin.X = lfGroupPos.X * int32(templateWidths[i])
-				replaced[i].size.Height = util.Min(templateHeights[i], lfHeights[i]-uint32(replaced[i].origin.Y))
-				replaced[i].size.Width = util.Min(templateWidths[i], lfWidths[i]-uint32(replaced[i].origin.X))
 			}
 
 			lfg, err := NewLFGroupWithReader(reader, f, int32(id), replaced, lfBuffer, NewLFCoefficientsWithReader, NewHFMetadataWithReader)
@@ -650,14 +646,14 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	// Copy data from each LF group into the pre-allocated channels
 	for lfGroupID := uint32(0); lfGroupID < f.numLFGroups; lfGroupID++ {
-		for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-			index := lfReplacementChannelIndicies[j]
-			channel := channels[index]
-			newChannelInfo := f.lfGroups[lfGroupID].modularLFGroup.getChannels()[index]
-			newChannel := newChannelInfo.buffer
-			for y := 0; y < len(newChannel); y++ {
-				copy(channel.buffer[int32(y)+newChannelInfo.origin.Y], newChannel[y])
+		next := 0
+		for _, index := range lfReplacementChannelIndicies {
+			part, ok := channelPart(channels[index], *f.getLFGroupLocation(int32(lfGroupID)), f.Header.lfGroupDim)
+			if !ok {
+				continue
 			}
+			copyPart(channels[index], part.origin, f.lfGroups[lfGroupID].modularLFGroup.getChannels()[next])
+			next++
 		}
 	}
 	return nil
-- 
2.43.0


From 7d52afdc9ab36db5e1d3cb633e7af92c5394db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 11/73] fix: pass groups take and return their own part of each
 channel

---
 frame/Frame.go | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index a0c86cb..a86a770 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -694,24 +694,15 @@ func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) er
 	}
 
 	replaced := []ModularChannel{}
+	groupPos := *f.getGroupLocation(int32(iGroup))
 	for _, r := range f.passes[iPass].replacedChannels {
 		// remove any replacedChannels that are nil/empty
-		if r != nil {
-			mc := NewModularChannelFromChannel(*r)
-			replaced = append(replaced, *mc)
+		if r == nil {
+			continue
+		}
+		if part, ok := channelPart(r, groupPos, f.Header.groupDim); ok {
+			replaced = append(replaced, part)
 		}
-	}
-
-	for i := 0; i < len(replaced); i++ {
-		info := replaced[i]
-		groupHeight := f.Header.groupDim >> info.vshift
-		groupWidth := f.Header.groupDim >> info.hshift
-		rowStride := util.CeilDiv(info.size.Width, groupWidth)
-		info.origin.Y = int32((uint32(iGroup) / rowStride) * groupHeight)
-		info.origin.X = int32((uint32(iGroup) % rowStride) * groupWidth)
-		info.size.Height = util.Min(info.size.Height-uint32(info.origin.Y), uint32(groupHeight))
-		info.size.Width = util.Min(info.size.Width-uint32(info.origin.X), uint32(groupWidth))
-		replaced[i] = info
 	}
 
 	pg, err := NewPassGroupWithReader(br, f, uint32(iPass), uint32(iGroup), replaced)
@@ -761,24 +752,21 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	wg.Wait()
 
 	for pass := 0; pass < numPasses; pass++ {
-		j := 0
+		next := make([]int, numGroups)
 		for i := 0; i < len(f.passes[pass].replacedChannels); i++ {
 			if f.passes[pass].replacedChannels[i] == nil {
 				continue
 			}
-			ii := i
-			jj := j
-			channel := f.LfGlobal.globalModular.getChannels()[ii]
+			channel := f.LfGlobal.globalModular.getChannels()[i]
 			channel.allocate()
-			for group := 0; group < int(f.numGroups); group++ {
-				newChannelInfo := passGroups[pass][group].modularStream.getChannels()[jj]
-				buff := newChannelInfo.buffer
-				for y := 0; y < len(buff); y++ {
-					idx := y + int(newChannelInfo.origin.Y)
-					copy(channel.buffer[idx][newChannelInfo.origin.X:], buff[y][:len(buff[y])])
+			for group := 0; group < numGroups; group++ {
+				part, ok := channelPart(channel, *f.getGroupLocation(int32(group)), f.Header.groupDim)
+				if !ok {
+					continue
 				}
+				copyPart(channel, part.origin, passGroups[pass][group].modularStream.getChannels()[next[group]])
+				next[group]++
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From 3c58e1f2fd603a427e5e7952d006b4ab3ba1bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 12/73] fix: a pass group that cannot be decoded fails the
 frame

---
 frame/Frame.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index a86a770..42febdb 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -677,13 +677,18 @@ func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 	return nil
 }
 
-func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) {
+func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) error {
+	var firstErr error
 	for inp := range inputChan {
 		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups); err != nil {
 			log.Errorf("Error processing %v %v %v", inp.iPass, inp.iGroup, err)
+			if firstErr == nil {
+				firstErr = err
+			}
 		}
 
 	}
+	return firstErr
 }
 
 func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
@@ -741,15 +746,22 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if maxGoroutines < 1 {
 		maxGoroutines = 1
 	}
+	workerErrs := make(chan error, maxGoroutines)
 	for i := 0; i < maxGoroutines; i++ {
 		wg.Add(1)
 		go func() {
-			f.startWorker(inputChan, passGroups)
+			workerErrs <- f.startWorker(inputChan, passGroups)
 			wg.Done()
 		}()
 	}
 
 	wg.Wait()
+	close(workerErrs)
+	for err := range workerErrs {
+		if err != nil {
+			return err
+		}
+	}
 
 	for pass := 0; pass < numPasses; pass++ {
 		next := make([]int, numGroups)
-- 
2.43.0


From f04726fe95c29a478bbf243536650e044ce54c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 13/73] fix: bit reader reads its bytes fully and accepts reads
 of zero bytes

---
 jxlio/bitreader.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 253004d..961cb21 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -97,22 +97,19 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 		return errors.New("BitStreamReader cache not aligned")
 	}
 
-	n, err := br.stream.Read(buffer[:numBytes])
-	if err != nil {
-		return err
-	}
-
-	if n != int(numBytes) {
+	n, err := io.ReadFull(br.stream, buffer[:numBytes])
+	br.bitsRead += uint64(n) * 8
+	if err == io.ErrUnexpectedEOF {
 		return errors.New("unable to read all bytes")
 	}
-	return nil
+	return err
 }
 
 // read single bit and will cache the current byte we're working on.
 func (br *BitStreamReader) readBit() (uint8, error) {
 	if br.index == 0 {
 
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -162,7 +159,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 
 	// Read full bytes directly while we need 8+ more bits
 	for bits-bitsRead >= 8 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -174,7 +171,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 	// Read remaining bits (less than 8)
 	remaining := bits - bitsRead
 	if remaining > 0 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From eb8fa0f2a4481cb9f872db75b2bc7b24fffb552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 14/73] fix: LZ77 distance multiplier only counts the channels
 a stream codes

---
 frame/ModularStream.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 52df50d..cd1fd82 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -372,12 +372,25 @@ func (ms *ModularStream) getChannels() []*ModularChannel {
 func (ms *ModularStream) decodeChannels(reader jxlio.BitReader, partial bool) error {
 
 	groupDim := uint32(ms.frame.getFrameHeader().groupDim)
-	for i := 0; i < len(ms.channels); i++ {
-		channel := ms.channels[i]
+	// The channels coded here end at the first one that is left to the groups,
+	// and the widest of them gives the distance multiplier.
+	coded := len(ms.channels)
+	maxWidth := uint32(0)
+	for i, channel := range ms.channels {
 		if partial && i >= ms.nbMetaChannels &&
 			(channel.size.Width > groupDim || channel.size.Height > groupDim) {
+			coded = i
 			break
 		}
+		if channel.size.Height > 0 {
+			maxWidth = util.Max(maxWidth, channel.size.Width)
+		}
+	}
+	if len(ms.channels) > 0 {
+		ms.distMultiplier = int32(maxWidth)
+	}
+	for i := 0; i < coded; i++ {
+		channel := ms.channels[i]
 		err := channel.decode(reader, ms.stream, ms.wpParams, ms.tree, ms, int32(i), int32(ms.streamIndex), ms.distMultiplier)
 		if err != nil {
 			return err
-- 
2.43.0


From d14df9e287090caac488d0da46501960a8a11059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 15/73] fix: the last entry for a pass gives its smallest
 shift, so the last pass completes the frame

---
 frame/Pass.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/frame/Pass.go b/frame/Pass.go
index 9e7e79f..0724a19 100644
--- a/frame/Pass.go
+++ b/frame/Pass.go
@@ -32,7 +32,6 @@ func NewPassWithReader(reader jxlio.BitReader, frame Framer, passIndex uint32, p
 	for i := 0; i < len(passes.lastPass); i++ {
 		if passes.lastPass[i] == passIndex {
 			n = i
-			break
 		}
 	}
 
-- 
2.43.0


From 4a6607f3fd089d0b56521b21bb4058928d6614ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 16/73] fix: a multiplying blend carries its clamp flag without
 extra channels too

---
 frame/BlendingInfo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/frame/BlendingInfo.go b/frame/BlendingInfo.go
index 0e4ade4..ee52fe3 100644
--- a/frame/BlendingInfo.go
+++ b/frame/BlendingInfo.go
@@ -40,9 +40,8 @@ func NewBlendingInfoWithReader(reader jxlio.BitReader, extra bool, fullFrame boo
 	}
 
 	var err error
-	if extra && (bi.Mode == BLEND_BLEND ||
-		bi.Mode == BLEND_MULT ||
-		bi.Mode == BLEND_MULADD) {
+	if bi.Mode == BLEND_MULT ||
+		extra && (bi.Mode == BLEND_BLEND || bi.Mode == BLEND_MULADD) {
 		if bi.Clamp, err = reader.ReadBool(); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2fd2e6f6ce71062b84cbe3035dce05764e312296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 17/73] fix: every frame is drawn over a copy of the reference
 it names, and reference-only frames are saved

---
 core/jxl_codestream_decoder.go | 83 +++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 26 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index bef88fd..c70a36f 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -211,7 +211,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if save && header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = imgFrame.Buffer
+				jxl.reference[header.SaveAsReference] = jxl.imageChannels(imgFrame)
 			}
 
 			err = jxl.computePatches(imgFrame)
@@ -238,31 +238,10 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				panic("VARDCT not implemented yet")
 			}
 
-			if jxl.canvas[0].Height == 0 && jxl.canvas[0].Width == 0 {
-				for c := 0; c < len(jxl.canvas); c++ {
-					canvas, err := image2.NewImageBuffer(imgFrame.Buffer[0].BufferType, int32(size.Height), int32(size.Width))
-					if err != nil {
-						return nil, err
-					}
-					jxl.canvas[c] = *canvas
-				}
-			}
 			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
-				found := false
-				for i := uint32(0); i < 4; i++ {
-					if image2.ImageBufferSliceEquals(jxl.reference[i], jxl.canvas) && i != header.SaveAsReference {
-						found = true
-						break
-					}
-				}
-
-				if found {
-					canvas2 := make([]image2.ImageBuffer, 0, len(jxl.canvas))
-					for _, ib := range jxl.canvas {
-						ib2 := image2.NewImageBufferFromImageBuffer(&ib, true)
-						canvas2 = append(canvas2, *ib2)
-					}
-					jxl.canvas = canvas2
+				jxl.canvas, err = jxl.newCanvas(imgFrame, size)
+				if err != nil {
+					return nil, err
 				}
 				err = jxl.blendFrame(jxl.canvas, imgFrame)
 				if err != nil {
@@ -271,7 +250,11 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if save && !header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = jxl.canvas
+				if header.FrameType == frame.REFERENCE_ONLY {
+					jxl.reference[header.SaveAsReference] = jxl.imageChannels(imgFrame)
+				} else {
+					jxl.reference[header.SaveAsReference] = jxl.canvas
+				}
 			}
 
 			if header.IsLast && header.Duration == 0 {
@@ -731,6 +714,54 @@ func (jxl *JXLCodestreamDecoder) performColourTransforms(matrix *colour.OpsinInv
 	return nil
 }
 
+// frameChannel gives the channel of the frame, and the blending info, that
+// belong to channel c of the image.
+func (jxl *JXLCodestreamDecoder) frameChannel(imgFrame *frame.Frame, c int) (int, *frame.BlendingInfo) {
+	frameColours := imgFrame.GetColourChannelCount()
+	frameC := c
+	if frameColours != jxl.imageHeader.GetColourChannelCount() {
+		if c == 0 {
+			frameC = 1
+		} else {
+			frameC = c + 2
+		}
+	}
+	if frameC < frameColours {
+		return frameC, imgFrame.Header.BlendingInfo
+	}
+	return frameC, &imgFrame.Header.EcBlendingInfo[frameC-frameColours]
+}
+
+// imageChannels gives the frame's buffers, one for each channel of the image.
+func (jxl *JXLCodestreamDecoder) imageChannels(imgFrame *frame.Frame) []image2.ImageBuffer {
+	buffers := make([]image2.ImageBuffer, len(jxl.canvas))
+	for c := range buffers {
+		frameC, _ := jxl.frameChannel(imgFrame, c)
+		buffers[c] = imgFrame.Buffer[frameC]
+	}
+	return buffers
+}
+
+// newCanvas makes the canvas a frame is drawn on: each channel starts as a copy
+// of the reference its blending info names, or empty if nothing was saved there.
+func (jxl *JXLCodestreamDecoder) newCanvas(imgFrame *frame.Frame, size util.Dimension) ([]image2.ImageBuffer, error) {
+	canvas := make([]image2.ImageBuffer, len(jxl.canvas))
+	for c := range canvas {
+		frameC, info := jxl.frameChannel(imgFrame, c)
+		ref := jxl.reference[info.Source]
+		if ref != nil && ref[c].Height == int32(size.Height) && ref[c].Width == int32(size.Width) {
+			canvas[c] = *image2.NewImageBufferFromImageBuffer(&ref[c], true)
+			continue
+		}
+		buffer, err := image2.NewImageBuffer(imgFrame.Buffer[frameC].BufferType, int32(size.Height), int32(size.Width))
+		if err != nil {
+			return nil, err
+		}
+		canvas[c] = *buffer
+	}
+	return canvas, nil
+}
+
 func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFrame *frame.Frame) error {
 
 	imageSize := jxl.imageHeader.GetSize()
-- 
2.43.0


From d832434c2e934f52f6cdeddc8427413a8958f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 18/73] fix: frames that start above or lie outside of the
 image

---
 core/jxl_codestream_decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index c70a36f..9ee2e2b 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -767,7 +767,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	imageSize := jxl.imageHeader.GetSize()
 	header := imgFrame.Header
 	frameStartY := int32(0)
-	if header.Bounds.Origin.X >= 0 {
+	if header.Bounds.Origin.Y >= 0 {
 		frameStartY = header.Bounds.Origin.Y
 	}
 	frameStartX := int32(0)
@@ -779,6 +779,10 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	lowerCorner := header.Bounds.ComputeLowerCorner()
 	frameHeight := util.Min(lowerCorner.Y, int32(imageSize.Height)) - frameStartY
 	frameWidth := util.Min(lowerCorner.X, int32(imageSize.Width)) - frameStartX
+	if frameHeight <= 0 || frameWidth <= 0 {
+		// the frame lies outside of the image
+		return nil
+	}
 
 	frameColours := imgFrame.GetColourChannelCount()
 	imageColours := jxl.imageHeader.GetColourChannelCount()
-- 
2.43.0


From f49f570619a49ae8ff774dcf3a509ad1004f6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 19/73] fix: blending with the alpha channel a frame names,
 over nothing, and where all is transparent

---
 core/jxl_codestream_decoder.go | 35 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 9ee2e2b..b157820 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -789,24 +789,14 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	hasAlpha := jxl.imageHeader.HasAlpha()
 	frameBuffers := imgFrame.Buffer
 	for c := int32(0); c < int32(len(canvas)); c++ {
-		var frameC int32
-		if frameColours != imageColours {
-			if c == 0 {
-				frameC = 1
-			} else {
-				frameC = c + 2
-			}
-		} else {
-			frameC = c
-		}
+		frameChannel, info := jxl.frameChannel(imgFrame, int(c))
+		frameC := int32(frameChannel)
 		frameBuffer := imgFrame.Buffer[frameC]
-		var info *frame.BlendingInfo
-		if frameC < int32(frameColours) {
-			info = imgFrame.Header.BlendingInfo
-		} else {
-			info = &imgFrame.Header.EcBlendingInfo[frameC-int32(frameColours)]
+		if hasAlpha && int(info.AlphaChannel) >= len(jxl.imageHeader.ExtraChannelInfo) {
+			return errors.New("invalid alpha channel for blending")
 		}
-		isAlpha := c >= int32(imageColours) && jxl.imageHeader.ExtraChannelInfo[c-int32(imageColours)].EcType == bundle.ALPHA
+		// the channel that blending takes its alpha from
+		isAlpha := hasAlpha && c == int32(imageColours)+int32(info.AlphaChannel)
 		premult := hasAlpha && jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].AlphaAssociated
 
 		refBuffer := jxl.reference[info.Source]
@@ -824,6 +814,11 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 			continue
 		}
 
+		// nothing was saved there: blend with an empty image
+		if refBuffer == nil {
+			refBuffer = make([]image2.ImageBuffer, len(canvas))
+		}
+
 		// check if just the zero value. Think dimension being 0 should be ok.
 		if refBuffer[c].Width == 0 && refBuffer[c].Height == 0 {
 			refBuf, err := image2.NewImageBuffer(frameBuffer.BufferType, canvas[c].Height, canvas[c].Width)
@@ -962,6 +957,9 @@ func (jxl *JXLCodestreamDecoder) performBlending(canvas []image2.ImageBuffer,
 					cf[cy][cx] = alpha
 				} else if !hasAlpha || premult {
 					cf[cy][cx] = newSample + oldSample*(1-newAlpha)
+				} else if alpha == 0 {
+					// fully transparent
+					cf[cy][cx] = 0
 				} else {
 					cf[cy][cx] = (newSample*newAlpha + oldSample*oldAlpha*(1-newAlpha)) / alpha
 				}
@@ -1066,8 +1064,9 @@ func (jxl *JXLCodestreamDecoder) blendAlpha(canvas image2.ImageBuffer, hasAlpha
 				return err
 			}
 		}
-		if !frameBuffers[alphaIdx].IsFloat() {
-			if err := frameBuffers[alphaIdx].CastToFloatIfMax(^(^0 << depth)); err != nil {
+		frameAlphaIdx := len(frameBuffers) - len(jxl.imageHeader.ExtraChannelInfo) + int(info.AlphaChannel)
+		if !frameBuffers[frameAlphaIdx].IsFloat() {
+			if err := frameBuffers[frameAlphaIdx].CastToFloatIfMax(^(^0 << depth)); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 2d028886cbfc2310ca170204d3d2c5a65782bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 20/73] fix: extra channels that are coded at their own
 resolution

---
 frame/Frame.go         | 16 +++++++++++-----
 frame/FrameHeader.go   | 20 ++++++++++++++++++++
 frame/ModularStream.go | 11 +++++++----
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 42febdb..8b1c6f8 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -368,6 +368,12 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 				f.GlobalMetadata.BitDepth.ExpBits != 0
 		} else {
 			isFloat = f.GlobalMetadata.ExtraChannelInfo[c-numColours].BitDepth.ExpBits != 0
+			shift, err := f.Header.extraChannelShift(f.GlobalMetadata, c-numColours)
+			if err != nil {
+				return err
+			}
+			channelSize.Height = util.CeilDiv(f.Header.Bounds.Size.Height, 1<<shift)
+			channelSize.Width = util.CeilDiv(f.Header.Bounds.Size.Width, 1<<shift)
 		}
 		typeToUse := image.TYPE_INT
 		if isFloat {
@@ -446,16 +452,16 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		} else if f.Buffer[cOut].IsFloat() {
 
 			outBuffer := f.Buffer[cOut].FloatBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
+			for y := range modularBuffer[cIn] {
+				for x := range modularBuffer[cIn][y] {
 					outBuffer[y][x] = scaleFactor * float32(modularBuffer[cIn][y][x])
 				}
 			}
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
+			for y := range modularBuffer[cIn] {
 				//copy(outBuffer[y], modularBuffer[cIn][y])
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
+				for x := range modularBuffer[cIn][y] {
 					outBuffer[y][x] = int32(scaleFactor * float32(modularBuffer[cIn][y][x]))
 				}
 			}
@@ -1466,7 +1472,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 	if c < colour {
 		k = f.Header.Upsampling
 	} else {
-		k = f.Header.EcUpsampling[c-colour]
+		k = f.Header.extraChannelUpsampling(f.GlobalMetadata, c-colour)
 	}
 	if k == 1 {
 		return &ib, nil
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index d422185..b55b7c9 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -1,6 +1,7 @@
 package frame
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
@@ -401,6 +402,25 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 	return fh, nil
 }
 
+// extraChannelUpsampling gives the factor by which an extra channel is upsampled.
+func (fh *FrameHeader) extraChannelUpsampling(parent *bundle.ImageHeader, ec int) uint32 {
+	upsampling := uint32(1)
+	if ec < len(fh.EcUpsampling) {
+		upsampling = util.Max(upsampling, fh.EcUpsampling[ec])
+	}
+	return upsampling << parent.ExtraChannelInfo[ec].DimShift
+}
+
+// extraChannelShift gives the log2 of how much coarser than the frame an extra
+// channel is coded.
+func (fh *FrameHeader) extraChannelShift(parent *bundle.ImageHeader, ec int) (int32, error) {
+	upsampling := fh.extraChannelUpsampling(parent, ec)
+	if upsampling < fh.Upsampling || upsampling > 8 {
+		return 0, errors.New("invalid extra channel upsampling")
+	}
+	return int32(util.CeilLog2(int64(upsampling)) - util.CeilLog2(int64(util.Max(1, fh.Upsampling)))), nil
+}
+
 // DisplayDebug will output header information to stdout for debugging purposes.
 func (fh *FrameHeader) DisplayDebug() {
 	if fh == nil {
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index cd1fd82..8ed4734 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -223,10 +223,13 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 		for i := 0; i < channelCount; i++ {
 			size := frame.getFrameHeader().Bounds.Size
 			var dimShift int32
-			if i < ecStart {
-				dimShift = 0
-			} else {
-				dimShift = frame.getGlobalMetadata().ExtraChannelInfo[i-ecStart].DimShift
+			if i >= ecStart {
+				dimShift, err = frame.getFrameHeader().extraChannelShift(frame.getGlobalMetadata(), i-ecStart)
+				if err != nil {
+					return nil, err
+				}
+				size.Height = util.CeilDiv(size.Height, 1<<dimShift)
+				size.Width = util.CeilDiv(size.Width, 1<<dimShift)
 			}
 			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), dimShift, dimShift, false))
 		}
-- 
2.43.0


From 141b52477efd59a7ef5db0dea145f8012ba57b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 21/73] fix: upsampling clamps to the largest of the samples
 when all are negative

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 8b1c6f8..014642b 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1530,7 +1530,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 							weights := upWeights[ky][kx]
 							total := float32(0.0)
 							min := float32(math.MaxFloat32)
-							max := float32(math.SmallestNonzeroFloat32)
+							max := float32(-math.MaxFloat32)
 							for iy := 0; iy < 5; iy++ {
 								for ix := 0; ix < 5; ix++ {
 									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, int32(len(buffer)))
-- 
2.43.0


From db8f837ca98c7b6a4933bf3a62b65187fdc28afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 22/73] fix: upsampled frames are placed at their origin and
 cut to their size

---
 frame/Frame.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 014642b..ea3b2d8 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1455,9 +1455,11 @@ func (f *Frame) Upsample() error {
 	}
 	f.Header.Bounds.Size.Height *= f.Header.Upsampling
 	f.Header.Bounds.Size.Width *= f.Header.Upsampling
-
-	f.Header.Bounds.Origin.Y *= int32(f.Header.Upsampling)
-	f.Header.Bounds.Origin.X *= int32(f.Header.Upsampling)
+	if f.Header.haveCrop {
+		// the frame has the size in its header, the rest is padding
+		f.Header.Bounds.Size.Height = util.Min(f.Header.Bounds.Size.Height, f.Header.Height)
+		f.Header.Bounds.Size.Width = util.Min(f.Header.Bounds.Size.Width, f.Header.Width)
+	}
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
-- 
2.43.0


From 99fe6e7a76d817ae8dc49a64448bdef217aebf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 23/73] fix: box sizes of zero, 64 bits, empty boxes and
 truncated or invalid boxes

---
 core/read_jxl_boxes.go | 84 +++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 44425da..39c1165 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -86,36 +86,52 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 		}
 
 		boxSize := makeTag(boxSizeArray, 0, 4)
+
+		err = br.reader.ReadBytesToBuffer(boxTag, 4)
+		if err != nil {
+			return nil, err
+		}
+		tag := makeTag(boxTag, 0, 4)
+
+		headerSize := uint64(8)
 		if boxSize == 1 {
+			// the size follows the tag as 64 bits.
 			err = br.reader.ReadBytesToBuffer(boxSizeArray, 8)
 			if err != nil {
 				return nil, err
 			}
 			boxSize = makeTag(boxSizeArray, 0, 8)
-			if boxSize > 0 {
-				boxSize -= 8
-			}
+			headerSize = 16
 		}
-		if boxSize > 0 {
-			boxSize -= 8
+		if tag == JXLP {
+			// index of this part of the codestream.
+			err = br.reader.ReadBytesToBuffer(boxTag, 4)
+			if err != nil {
+				return nil, err
+			}
+			headerSize += 4
 		}
 
-		err = br.reader.ReadBytesToBuffer(boxTag, 4)
+		remaining, err := br.remaining()
 		if err != nil {
 			return nil, err
 		}
-		tag := makeTag(boxTag, 0, 4)
+		if boxSize == 0 {
+			// last box, up to the end of the file.
+			boxSize = uint64(remaining)
+		} else {
+			if boxSize < headerSize {
+				return nil, errors.New("invalid box size")
+			}
+			boxSize -= headerSize
+			if boxSize > uint64(remaining) {
+				return nil, errors.New("truncated box")
+			}
+		}
 
 		// check boxType...  if we dont know the box type, just skip over the bytes and keep reading.
 		switch tag {
 		case JXLP:
-			// reads next 4 bytes as additional tag?
-			err = br.reader.ReadBytesToBuffer(boxTag, 4)
-			if err != nil {
-				return nil, err
-			}
-			boxSize -= 4
-
 			// fileoffset...  directly from ReadSeeker?
 			pos, err := br.reader.Seek(0, io.SeekCurrent)
 			if err != nil {
@@ -171,16 +187,12 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 		default:
 			// skip over the bytes
-			if boxSize > 0 {
-				s, err := br.SkipFully(int64(boxSize))
-				if err != nil {
-					return nil, err
-				}
-				if s != 0 {
-					return nil, errors.New("truncated extra box")
-				}
-			} else {
-				panic("java read supplyExceptionally... unsure why?")
+			s, err := br.SkipFully(int64(boxSize))
+			if err != nil {
+				return nil, err
+			}
+			if s != 0 {
+				return nil, errors.New("truncated extra box")
 			}
 		}
 	}
@@ -188,8 +200,28 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 // returns number of bytes that were NOT skipped.
 func (br *BoxReader) SkipFully(i int64) (int64, error) {
-	n, err := br.reader.Skip(uint32(i))
-	return i - n, err
+	_, err := br.reader.Seek(i, io.SeekCurrent)
+	if err != nil {
+		return i, err
+	}
+	return 0, nil
+}
+
+// remaining gives the number of bytes up to the end of the file.
+func (br *BoxReader) remaining() (int64, error) {
+	pos, err := br.reader.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	end, err := br.reader.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
+	}
+	_, err = br.reader.Seek(pos, io.SeekStart)
+	if err != nil {
+		return 0, err
+	}
+	return max(0, end-pos), nil
 }
 
 func makeTag(bytes []uint8, offset int, length int) uint64 {
-- 
2.43.0


From 3802152aa24a030c63a4f60bbf2a92691a0c2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 24/73] fix: codestreams split over several boxes are put
 together before decoding

---
 core/jxl_codestream_decoder.go | 56 +++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index b157820..17d2a70 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"errors"
 	"io"
 
@@ -22,6 +23,7 @@ type JXLCodestreamDecoder struct {
 	canvas      []image2.ImageBuffer
 	boxHeaders  []ContainerBoxHeader
 	bitReader   jxlio.BitReader
+	container   jxlio.BitReader // the file, when its codestream was put together from several boxes.
 	imageHeader *bundle.ImageHeader
 
 	options        options.JXLOptions
@@ -58,20 +60,11 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 		return nil, err
 	}
 
-	if len(jxl.boxHeaders) > 1 {
-		return nil, errors.New("multiple boxes found, cannot get image header alone")
-	}
-
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
+	err = jxl.openCodestream()
 	if err != nil {
 		return nil, err
 	}
 
-	if jxl.atEnd() {
-		return nil, nil
-	}
-
 	level := int32(jxl.level)
 	imageHeader, err := bundle.ParseImageHeader(jxl.bitReader, level)
 	if err != nil {
@@ -89,16 +82,11 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
+	err = jxl.openCodestream()
 	if err != nil {
 		return nil, err
 	}
 
-	if jxl.atEnd() {
-		return nil, nil
-	}
-
 	level := int32(jxl.level)
 	imageHeader, err := bundle.ParseImageHeader(jxl.bitReader, level)
 	if err != nil {
@@ -153,7 +141,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		}
 
 		if jxl.atEnd() {
-			return nil, nil
+			return nil, io.ErrUnexpectedEOF
 		}
 
 		for {
@@ -293,9 +281,43 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	return nil, nil
 }
 
+// openCodestream moves to the start of the codestream. A codestream in
+// several boxes is put together first.
+func (jxl *JXLCodestreamDecoder) openCodestream() error {
+	if len(jxl.boxHeaders) == 0 {
+		return errors.New("no codestream found")
+	}
+	if len(jxl.boxHeaders) == 1 {
+		_, err := jxl.bitReader.Seek(jxl.boxHeaders[0].Offset, io.SeekStart)
+		return err
+	}
+
+	var codestream []byte
+	for _, box := range jxl.boxHeaders {
+		_, err := jxl.bitReader.Seek(box.Offset, io.SeekStart)
+		if err != nil {
+			return err
+		}
+		part := make([]byte, box.BoxSize)
+		err = jxl.bitReader.ReadBytesToBuffer(part, uint32(len(part)))
+		if err != nil {
+			return err
+		}
+		codestream = append(codestream, part...)
+	}
+	jxl.container = jxl.bitReader
+	jxl.bitReader = jxlio.NewBitStreamReader(bytes.NewReader(codestream))
+	jxl.boxHeaders = []ContainerBoxHeader{{BoxType: JXLC, BoxSize: uint64(len(codestream))}}
+	return nil
+}
+
 // Read signature
 func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 
+	if jxl.container != nil {
+		jxl.bitReader = jxl.container
+		jxl.container = nil
+	}
 	br := NewBoxReader(jxl.bitReader)
 	boxHeaders, err := br.ReadBoxHeader()
 	if err != nil {
-- 
2.43.0


From ae1d59765c80c066fdd237b73b71941282c5ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 25/73] fix: pooled matrices that alias the frame buffer or
 have channels of different size

---
 frame/Frame.go          | 4 ++--
 frame/HFCoefficients.go | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index ea3b2d8..66dee5a 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -791,8 +791,8 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if f.Header.Encoding == VARDCT {
 
 		// get floating point version of frame buffer
-		buffers := util.MakeMatrix3DPooled[float32](3, 0, 0)
-		defer util.ReturnMatrix3DToPool(buffers)
+		// (not pooled, the channels are those of the frame and stay in use)
+		buffers := make([][][]float32, 3)
 		for c := 0; c < 3; c++ {
 			if err := f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 				return err
diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 14f4207..24ce1ab 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -441,11 +441,16 @@ func (hf *HFCoefficients) finalizeLLF() error {
 // Release returns pooled buffers to the pool
 func (hf *HFCoefficients) Release() {
 	if hf.quantizedCoeffs != nil {
-		util.ReturnMatrix3DToPool(hf.quantizedCoeffs)
+		// channels may differ in size, so each goes back on its own
+		for _, coeffs := range hf.quantizedCoeffs {
+			util.ReturnMatrix2DToPool(coeffs)
+		}
 		hf.quantizedCoeffs = nil
 	}
 	if hf.dequantHFCoeff != nil {
-		util.ReturnMatrix3DToPool(hf.dequantHFCoeff)
+		for _, coeffs := range hf.dequantHFCoeff {
+			util.ReturnMatrix2DToPool(coeffs)
+		}
 		hf.dequantHFCoeff = nil
 	}
 }
-- 
2.43.0


From 963ebd72308f0897b210ee351be9cd09ba7c436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 26/73] fix: damaged images give an error and not a panic

---
 core/jxl_decoder.go | 10 ++++++++--
 frame/Frame.go      | 15 ++++++++++++++-
 util/recover.go     | 19 +++++++++++++++++++
 3 files changed, 41 insertions(+), 3 deletions(-)
 create mode 100644 util/recover.go

diff --git a/core/jxl_decoder.go b/core/jxl_decoder.go
index f9631d7..b1741a6 100644
--- a/core/jxl_decoder.go
+++ b/core/jxl_decoder.go
@@ -7,6 +7,7 @@ import (
 	"github.com/kpfaulkner/jxl-go/jxlio"
 	"github.com/kpfaulkner/jxl-go/options"
 	"github.com/kpfaulkner/jxl-go/testcommon"
+	"github.com/kpfaulkner/jxl-go/util"
 )
 
 // JXLDecoder decodes the JXL image
@@ -35,7 +36,10 @@ func NewJXLDecoder(in io.ReadSeeker, opts *options.JXLOptions) *JXLDecoder {
 	return jxl
 }
 
-func (jxl *JXLDecoder) Decode() (*JXLImage, error) {
+func (jxl *JXLDecoder) Decode() (img *JXLImage, err error) {
+
+	// a damaged image must not take the caller down
+	defer util.RecoverAsError(&err)
 
 	jxlImage, err := jxl.decoder.decode()
 	if err != nil {
@@ -45,7 +49,9 @@ func (jxl *JXLDecoder) Decode() (*JXLImage, error) {
 	return jxlImage, nil
 }
 
-func (jxl *JXLDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
+func (jxl *JXLDecoder) GetImageHeader() (imageHeader *bundle.ImageHeader, err error) {
+
+	defer util.RecoverAsError(&err)
 
 	header, err := jxl.decoder.GetImageHeader()
 	if err != nil {
diff --git a/frame/Frame.go b/frame/Frame.go
index 66dee5a..b31abe2 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -611,6 +611,11 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 		go func(id uint32) {
 			defer wg.Done()
 			defer func() { <-sem }()
+			defer func() {
+				if r := recover(); r != nil {
+					errChan <- util.PanicError(r)
+				}
+			}()
 
 			reader, err := f.getBitreader(1 + int(id))
 			if err != nil {
@@ -697,7 +702,9 @@ func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) error
 	return firstErr
 }
 
-func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
+func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) (err error) {
+
+	defer util.RecoverAsError(&err)
 
 	br, err := f.getBitreader(2 + int(f.numLFGroups) + iPass*int(f.numGroups) + iGroup)
 	if err != nil {
@@ -812,6 +819,12 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 					sem <- struct{}{}
 					defer func() { <-sem }()
 
+					defer func() {
+						if r := recover(); r != nil {
+							errChan <- util.PanicError(r)
+						}
+					}()
+
 					passGroup := &passGroups[p][g]
 					var prev *PassGroup
 					if p > 0 {
diff --git a/util/recover.go b/util/recover.go
new file mode 100644
index 0000000..343d96e
--- /dev/null
+++ b/util/recover.go
@@ -0,0 +1,19 @@
+package util
+
+import "fmt"
+
+// PanicError makes an error of what a panic reported. Code that decodes
+// untrusted data uses it so that damaged data ends in an error.
+func PanicError(reported any) error {
+	if err, ok := reported.(error); ok {
+		return fmt.Errorf("invalid data: %w", err)
+	}
+	return fmt.Errorf("invalid data: %v", reported)
+}
+
+// RecoverAsError is deferred by functions that report a panic as their error.
+func RecoverAsError(err *error) {
+	if r := recover(); r != nil {
+		*err = PanicError(r)
+	}
+}
-- 
2.43.0


From 75f26ae170bd48245c10eba9e4d23d3f20b6b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 27/73] fix: a decoder used again starts at a whole byte and
 without the frames of before

---
 core/jxl_codestream_decoder.go | 4 ++++
 jxlio/bitreader.go             | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 17d2a70..0268841 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -93,6 +93,10 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 	jxl.imageHeader = imageHeader
+
+	// frames of an earlier decode are not part of this one
+	jxl.reference = make([][]image2.ImageBuffer, 4)
+	jxl.lfBuffer = make([][]image2.ImageBuffer, 5)
 	size := imageHeader.Size
 	jxl.canvas = make([]image2.ImageBuffer, imageHeader.GetColourChannelCount()+len(imageHeader.ExtraChannelInfo))
 	if imageHeader.AnimationHeader != nil {
diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 961cb21..ebcff52 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -68,6 +68,11 @@ func (br *BitStreamReader) Seek(offset int64, whence int) (int64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if whence != io.SeekCurrent {
+		// what is left of the byte before the move does not belong here.
+		br.index = 0
+		br.currentByte = 0
+	}
 	return n, err
 }
 
-- 
2.43.0


From b2fe2127efc84a9e7c7c168d8d3b9b035daf6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 28/73] fix: conversions to other formats work on a copy and
 leave the image as decoded

---
 core/jxl_image.go  | 11 ++++++++---
 core/png_writer.go |  6 ++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index dde581b..889ffa8 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -101,7 +101,7 @@ func NewJXLImageFromJXLImage(img *JXLImage, copyBuffer bool) (*JXLImage, error)
 	jxl.bitDepths = make([]uint32, len(img.bitDepths))
 	copy(jxl.bitDepths, img.bitDepths)
 
-	for _, ib := range jxl.Buffer {
+	for _, ib := range img.Buffer {
 		buf := image2.NewImageBufferFromImageBuffer(&ib, copyBuffer)
 		jxl.Buffer = append(jxl.Buffer, *buf)
 	}
@@ -215,6 +215,12 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 // ToImage converts to standard Go image.Image NRGBA format for the R,G,B and alpha channels
 func (jxl *JXLImage) ToImage() (image.Image, error) {
 
+	// conversions are in place
+	jxl, err := NewJXLImageFromJXLImage(jxl, true)
+	if err != nil {
+		return nil, err
+	}
+
 	var bitDepth int32
 	if jxl.imageHeader.BitDepth.BitsPerSample > 8 {
 		bitDepth = 16
@@ -231,7 +237,6 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	}
 	whitePoint := colour.CM_WP_D65
 	iccProfile := jxl.iccProfile
-	var err error
 	if iccProfile == nil {
 		// transforms in place
 		img, err := jxl.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
@@ -468,7 +473,7 @@ func (jxl *JXLImage) transferWithOp(f func(v float32) float32) (*JXLImage, error
 		buffers[c] = jxl.Buffer[c].FloatBuffer
 	}
 
-	img, err := NewJXLImageFromJXLImage(jxl, false)
+	img, err := NewJXLImageFromJXLImage(jxl, true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/core/png_writer.go b/core/png_writer.go
index ca2a5d7..a6ff132 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -24,6 +24,12 @@ type PNGWriter struct {
 // to write out ICC Profile which doesn't seem to be supported by the standard package.
 func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 
+	// conversions are in place
+	jxlImage, err := NewJXLImageFromJXLImage(jxlImage, true)
+	if err != nil {
+		return err
+	}
+
 	w.hdr = jxlImage.isHDR()
 	var bitDepth int32
 	if w.hdr {
-- 
2.43.0


From e91669318c6932ac57ac4aaffc9ab672fb809e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 29/73] fix: Go images of more than 8 bits, with any alpha
 channel, grey with alpha and premultiplied alpha

---
 core/jxl_image.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 889ffa8..c7ef322 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -221,12 +221,8 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 		return nil, err
 	}
 
-	var bitDepth int32
-	if jxl.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
+	// the Go images made here have 8 bits per sample
+	bitDepth := int32(8)
 
 	//gray := jxlImage.ColourEncoding == color.CE_GRAY
 	primaries := colour.CM_PRI_SRGB
@@ -267,7 +263,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 		}
 	}
 	if jxl.alphaIsPremultiplied {
-		panic("not implemented")
+		jxl.divideByAlpha(buffer)
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxl.bitDepths[c] == uint32(bitDepth) {
@@ -283,7 +279,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 
 	var img image.Image
 	colourCount := jxl.imageHeader.GetColourChannelCount()
-	if colourCount == 1 {
+	if colourCount == 1 && !jxl.HasAlpha() {
 		img = jxl.createGrayScaleImage(buffer)
 	} else {
 		img = jxl.create24BitImage(buffer)
@@ -291,6 +287,21 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	return img, nil
 }
 
+// divideByAlpha undoes the premultiplication of float buffers by alpha.
+func (jxl *JXLImage) divideByAlpha(buffer []image2.ImageBuffer) {
+	colours := jxl.imageHeader.GetColourChannelCount()
+	alpha := buffer[colours+int(jxl.alphaIndex)].FloatBuffer
+	for c := 0; c < colours; c++ {
+		for y, row := range buffer[c].FloatBuffer {
+			for x := range row {
+				if alpha[y][x] > 0 {
+					row[x] /= alpha[y][x]
+				}
+			}
+		}
+	}
+}
+
 func (jxl *JXLImage) createGrayScaleImage(buffer []image2.ImageBuffer) image.Image {
 	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
 	pix := img.Pix
@@ -326,6 +337,11 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
+	g, b := 1, 2
+	if jxl.imageHeader.GetColourChannelCount() == 1 {
+		g, b = 0, 0
+	}
+	alpha := jxl.imageHeader.GetColourChannelCount() + int(jxl.alphaIndex)
 
 	if buffer[0].IsFloat() {
 		for y := 0; y < dy; y++ {
@@ -334,9 +350,9 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 				// assumption of 8 bits per channel.
 				pix[pos] = uint8(buffer[0].FloatBuffer[y][x] * 255)
 				pos++
-				pix[pos] = uint8(buffer[1].FloatBuffer[y][x] * 255)
+				pix[pos] = uint8(buffer[g].FloatBuffer[y][x] * 255)
 				pos++
-				pix[pos] = uint8(buffer[2].FloatBuffer[y][x] * 255)
+				pix[pos] = uint8(buffer[b].FloatBuffer[y][x] * 255)
 				pos++
 
 				if jxl.imageHeader.HasAlpha() {
@@ -354,13 +370,13 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 			for x := 0; x < dx; x++ {
 				pix[pos] = uint8(buffer[0].IntBuffer[y][x])
 				pos++
-				pix[pos] = uint8(buffer[1].IntBuffer[y][x])
+				pix[pos] = uint8(buffer[g].IntBuffer[y][x])
 				pos++
-				pix[pos] = uint8(buffer[2].IntBuffer[y][x])
+				pix[pos] = uint8(buffer[b].IntBuffer[y][x])
 				pos++
 
 				if jxl.imageHeader.HasAlpha() {
-					pix[pos] = uint8(buffer[3].IntBuffer[y][x])
+					pix[pos] = uint8(buffer[alpha].IntBuffer[y][x])
 					pos++
 				} else {
 					pix[pos] = 255
-- 
2.43.0


From 6de06c857fb20c52b7372b066eae39e7db8f702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 30/73] fix: samples are converted to linear light and between
 primaries for output

---
 core/jxl_image.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index c7ef322..4f04878 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -410,7 +410,7 @@ func (jxl *JXLImage) transform(primaries *colour.CIEPrimaries, whitePoint *colou
 		return nil, err
 	}
 
-	if err := img.toneMapLinear(); err != nil {
+	if err := img.toneMapLinear(primaries, whitePoint); err != nil {
 		return nil, err
 	}
 
@@ -553,10 +553,42 @@ func (jxl *JXLImage) linearize() (*JXLImage, error) {
 		return jxl, nil
 	}
 
-	panic("not implemented")
+	transferFunction, err := colour.GetTransferFunction(jxl.transfer)
+	if err != nil {
+		return nil, err
+	}
+	img, err := jxl.transferWithOp(func(v float32) float32 { return float32(transferFunction.ToLinear(float64(v))) })
+	if err != nil {
+		return nil, err
+	}
+	img.transfer = colour.TF_LINEAR
+	return img, nil
 }
 
-func (jxl *JXLImage) toneMapLinear() error {
+// toneMapLinear converts linear samples to other primaries and another white point.
+func (jxl *JXLImage) toneMapLinear(primaries *colour.CIEPrimaries, whitePoint *colour.CIEXY) error {
+	if jxl.ColorEncoding == colour.CE_GRAY {
+		return nil
+	}
+	conversion, err := colour.GetConversionMatrix(*primaries, *whitePoint, *jxl.primariesXY, *jxl.whiteXY)
+	if err != nil {
+		return err
+	}
+	for c := 0; c < 3; c++ {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
+			return err
+		}
+	}
+	for y := 0; y < int(jxl.Height); y++ {
+		for x := 0; x < int(jxl.Width); x++ {
+			rgb := []float32{jxl.Buffer[0].FloatBuffer[y][x], jxl.Buffer[1].FloatBuffer[y][x], jxl.Buffer[2].FloatBuffer[y][x]}
+			for c := 0; c < 3; c++ {
+				jxl.Buffer[c].FloatBuffer[y][x] = conversion[c][0]*rgb[0] + conversion[c][1]*rgb[1] + conversion[c][2]*rgb[2]
+			}
+		}
+	}
+	jxl.primariesXY = primaries
+	jxl.whiteXY = whitePoint
 	return nil
 }
 
@@ -568,7 +600,7 @@ func (jxl *JXLImage) transferInPlace(transferFunction func(float64) float64) err
 
 	buffers := util.MakeMatrix3D[float32](colours, 0, 0)
 	for c := 0; c < colours; c++ {
-		if err := jxl.Buffer[c].CastToFloatIfMax(int32(jxl.bitDepths[c])); err != nil {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
 			return err
 		}
 		buffers[c] = jxl.Buffer[c].FloatBuffer
-- 
2.43.0


From 8e3c7b7f4ca8ddbb331702d117d30c01f61dbb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 31/73] fix: the DCI transfer function, and primaries that have
 no inverse

---
 colour/colour_management.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/colour/colour_management.go b/colour/colour_management.go
index 4e3a4fd..a789f17 100644
--- a/colour/colour_management.go
+++ b/colour/colour_management.go
@@ -52,6 +52,9 @@ func GetConversionMatrix(targetPrim CIEPrimaries, targetWP CIEXY, currentPrim CI
 		return nil, err
 	}
 	reverse := util.InvertMatrix3x3(t)
+	if reverse == nil {
+		return nil, errors.New("invalid primaries")
+	}
 	res, err := util.MatrixMultiply(reverse, whitePointConv, forward)
 	if err != nil {
 		return nil, err
@@ -79,6 +82,9 @@ func primariesToXYZ(primaries *CIEPrimaries, wp *CIEXY) ([][]float32, error) {
 	primariesTr := [][]float32{r, g, b}
 	primariesMatrix := util.TransposeMatrix(primariesTr, *util.NewPoint(3, 3))
 	inversePrimaries := util.InvertMatrix3x3(primariesMatrix)
+	if inversePrimaries == nil {
+		return nil, errors.New("invalid primaries")
+	}
 	w, err := GetXYZ(*wp)
 	if err != nil {
 		return nil, err
@@ -123,7 +129,8 @@ func GetTransferFunction(transfer int32) (TransferFunction, error) {
 	case TF_BT709:
 		return BT709TransferFunction{}, nil
 	case TF_DCI:
-		return NewGammaTransferFunction(transfer), nil
+		// a gamma of 1/2.6
+		return NewGammaTransferFunction(3846154), nil
 	case TF_HLG:
 		return nil, errors.New("Not implemented")
 	}
-- 
2.43.0


From 2d6cc44ec104a7316938283377eb9df52c7073f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 32/73] fix: PNG samples of other depths, any alpha channel,
 premultiplied alpha and no empty profile

---
 core/png_writer.go | 74 +++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 47 deletions(-)

diff --git a/core/png_writer.go b/core/png_writer.go
index a6ff132..0e152cc 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -104,7 +104,7 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 
 	if jxlImage.alphaIsPremultiplied {
-		panic("not implemented")
+		jxlImage.divideByAlpha(buffer)
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
@@ -142,10 +142,14 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	if w.hdr || len(jxlImage.iccProfile) != 0 || w.writeSRGBICC {
+	if len(jxlImage.iccProfile) != 0 {
 		if err := w.writeICCP(jxlImage, output); err != nil {
 			return err
 		}
+	} else if w.hdr {
+		if err := w.writeCICP(output); err != nil {
+			return err
+		}
 	} else {
 		// if we have an ICC profile then write it out
 		if err := w.writeSRGB(jxlImage, output); err != nil {
@@ -215,6 +219,22 @@ func (w *PNGWriter) writeICCP(image *JXLImage, output io.Writer) error {
 	return nil
 }
 
+// writeCICP tags the image as BT.2100 primaries with the PQ transfer function.
+func (w *PNGWriter) writeCICP(output io.Writer) error {
+	rawBytes := []byte{'c', 'I', 'C', 'P', 9, 16, 0, 1}
+	buf2 := make([]byte, 4)
+	binary.BigEndian.PutUint32(buf2, uint32(len(rawBytes))-4)
+	if _, err := output.Write(buf2); err != nil {
+		return err
+	}
+	if _, err := output.Write(rawBytes); err != nil {
+		return err
+	}
+	binary.BigEndian.PutUint32(buf2, crc32.ChecksumIEEE(rawBytes))
+	_, err := output.Write(buf2)
+	return err
+}
+
 func (w *PNGWriter) writeSRGB(jxlImage *JXLImage, output io.Writer) error {
 
 	if w.hdr {
@@ -299,48 +319,8 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	var bitDepth int32
-	if jxlImage.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
-
-	maxValue := int32(^(^0 << bitDepth))
-
-	if err = jxlImage.Buffer[0].CastToIntIfMax(maxValue); err != nil {
-		return err
-	}
-
-	if len(jxlImage.Buffer) > 1 {
-		if err = jxlImage.Buffer[1].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	if len(jxlImage.Buffer) > 2 {
-		if err = jxlImage.Buffer[2].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	if jxlImage.HasAlpha() {
-		if err = jxlImage.Buffer[3].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	for c := 0; c < len(jxlImage.Buffer); c++ {
-		if jxlImage.Buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
-			if err := jxlImage.Buffer[c].Clamp(maxValue); err != nil {
-				return err
-			}
-		} else {
-			if err := jxlImage.Buffer[c].CastToIntIfMax(maxValue); err != nil {
-				return err
-			}
-		}
-	}
+	// WritePNG converted the samples to w.bitDepth bits
+	alpha := jxlImage.imageHeader.GetColourChannelCount() + int(w.alphaIndex)
 	for y := uint32(0); y < jxlImage.Height; y++ {
 		if _, err := wr.Write([]byte{0}); err != nil {
 			return err
@@ -350,7 +330,7 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 			// FIXME(kpfaulkner) remove 3 assumption
 			for c := 0; c < jxlImage.imageHeader.GetColourChannelCount(); c++ {
 				dat := jxlImage.Buffer[c].IntBuffer[y][x]
-				if jxlImage.bitDepths[c] == 8 {
+				if w.bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
@@ -365,8 +345,8 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 
 			}
 			if jxlImage.HasAlpha() {
-				dat := jxlImage.Buffer[3].IntBuffer[y][x]
-				if jxlImage.bitDepths[3] == 8 {
+				dat := jxlImage.Buffer[alpha].IntBuffer[y][x]
+				if w.bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
-- 
2.43.0


From 6261c4dfc8947e0b1c2c52ea8d8f7ea1b00240c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 33/73] fix: PFM of images with integer samples

---
 core/pfm_writer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index b0f2376..507b513 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -30,17 +30,17 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 		cCount = 3
 	}
 
-	buffer2, err := jxlImage.getBuffer(false)
+	// conversions are in place
+	buffer2, err := jxlImage.getBuffer(true)
 	if err != nil {
 		return err
 	}
 	nb := make([]image2.ImageBuffer, len(buffer2))
 	for c := 0; c < len(nb); c++ {
-		if buffer2[c].IsInt() {
-			panic("not implemented")
-		} else {
-			nb[c] = buffer2[c]
+		if err := buffer2[c].CastToFloatIfMax(^(^0 << jxlImage.bitDepths[c])); err != nil {
+			return err
 		}
+		nb[c] = buffer2[c]
 	}
 
 	if gray {
-- 
2.43.0


From 0ceabd41a457dc74c41c4ffd1971a255038175fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 34/73] fix: image.Decode reads any reader and bare
 codestreams, and DecodeConfig tells the image Decode gives

---
 reader.go | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/reader.go b/reader.go
index c13f603..336bf44 100644
--- a/reader.go
+++ b/reader.go
@@ -1,7 +1,7 @@
 package jxl_go
 
 import (
-	"errors"
+	"bytes"
 	"image"
 	color2 "image/color"
 	"io"
@@ -11,25 +11,36 @@ import (
 )
 
 const jxlHeader = "\x00\x00\x00\x0C\x4A\x58\x4C\x20\x0D\x0A\x87\x0A"
+const codestreamHeader = "\xff\x0a"
 
 func init() {
 	image.RegisterFormat("jxl", jxlHeader, Decode, DecodeConfig)
+	image.RegisterFormat("jxl", codestreamHeader, Decode, DecodeConfig)
 }
 
-func Decode(r io.Reader) (image.Image, error) {
+// readSeeker gives a seeker for the rest of r, which is read if it cannot seek.
+func readSeeker(r io.Reader) (io.ReadSeeker, error) {
+	if rs, ok := r.(io.ReadSeeker); ok {
+		return rs, nil
+	}
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	return bytes.NewReader(data), nil
+}
 
-	var rs io.ReadSeeker
-	var ok bool
+func Decode(r io.Reader) (image.Image, error) {
 
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return nil, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return nil, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
 
 	var img image.Image
 	var jxlImg *core.JXLImage
-	var err error
 	if jxlImg, err = jxl.Decode(); err != nil {
 		return nil, err
 	}
@@ -41,11 +52,9 @@ func Decode(r io.Reader) (image.Image, error) {
 }
 
 func DecodeConfig(r io.Reader) (image.Config, error) {
-	var rs io.ReadSeeker
-	var ok bool
-
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return image.Config{}, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return image.Config{}, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
@@ -54,24 +63,18 @@ func DecodeConfig(r io.Reader) (image.Config, error) {
 		return image.Config{}, err
 	}
 
+	// the model and size of the image Decode gives
 	var colourModel color2.Model
-
-	switch header.GetColourModel() {
-	case colour.CE_RGB:
-		colourModel = color2.RGBAModel
-	case colour.CE_XYB:
-		colourModel = color2.GrayModel // unsure how to deal with XYB
-	case colour.CE_GRAY:
+	if header.GetColourModel() == colour.CE_GRAY && !header.HasAlpha() {
 		colourModel = color2.GrayModel
-	default:
-		colourModel = color2.RGBAModel
+	} else {
+		colourModel = color2.NRGBAModel
 	}
 
-	dim := header.GetSize()
 	return image.Config{
 		ColorModel: colourModel,
-		Width:      int(dim.Width),
-		Height:     int(dim.Height),
+		Width:      int(header.OrientedWidth),
+		Height:     int(header.OrientedHeight),
 	}, nil
 
 }
-- 
2.43.0


From dd823057708bb4ffc8b186c391b3b431ce7126d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 35/73] fix: float samples far outside of the range clamp when
 cast to integers

---
 image/imagebuffer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image/imagebuffer.go b/image/imagebuffer.go
index 7c27fe1..60d30a0 100644
--- a/image/imagebuffer.go
+++ b/image/imagebuffer.go
@@ -212,14 +212,14 @@ func (ib *ImageBuffer) castToIntBuffer(maxValue int32) error {
 
 	for y := 0; y < int(ib.Height); y++ {
 		for x := 0; x < int(ib.Width); x++ {
-			v := int32(oldBuffer[y][x]*scaleFactor + 0.5)
+			v := oldBuffer[y][x]*scaleFactor + 0.5
 			var vv int32
-			if v < 0 {
+			if !(v >= 0) {
 				vv = 0
-			} else if v > maxValue {
+			} else if v >= scaleFactor {
 				vv = maxValue
 			} else {
-				vv = v
+				vv = int32(v)
 			}
 			newBuffer[y][x] = vv
 		}
-- 
2.43.0


From 5ed663fd0bfb70a8e3999b09390439d93c153dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 36/73] fix: ICC profiles with uneven shuffles or without tags,
 and damaged profiles give an error

---
 bundle/image_header.go | 260 ++++++++++++++++++++++-------------------
 1 file changed, 140 insertions(+), 120 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d44511b..4f49859 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"math"
 	"slices"
 
 	"github.com/kpfaulkner/jxl-go/colour"
@@ -335,8 +334,7 @@ func ParseImageHeader(reader jxlio.BitReader, level int32) (*ImageHeader, error)
 			return nil, err
 		}
 
-		// check MaxUint32 or MaxInt32
-		if encodedSize > math.MaxUint32 {
+		if encodedSize > 1<<28 {
 			return nil, errors.New("Invalid encoded Size")
 		}
 		header.EncodedICC = make([]byte, encodedSize)
@@ -393,7 +391,7 @@ func (h *ImageHeader) GetTotalChannelCount() int {
 	return len(h.ExtraChannelInfo) + h.GetColourChannelCount()
 }
 
-func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
+func (h *ImageHeader) GetDecodedICC() (profile []byte, err error) {
 	if len(h.DecodedICC) > 0 {
 		return h.DecodedICC, nil
 	}
@@ -402,6 +400,15 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 		return nil, nil
 	}
 
+	// a damaged profile is an error, and no profile is kept
+	defer func() {
+		if err != nil {
+			h.DecodedICC = nil
+			profile = nil
+		}
+	}()
+	defer util.RecoverAsError(&err)
+
 	commandReader := jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC))
 	outputSize, err := commandReader.ReadICCVarint()
 	if err != nil {
@@ -470,7 +477,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				tag = "rTRC"
 			} else if tagCode == 3 {
 				tag = "rXYZ"
-			} else if tagCode >= 4 && tagCode <= 21 {
+			} else if tagCode >= 4 && tagCode <= 20 {
 				tag = iccTags[tagCode-4]
 			} else {
 				return nil, errors.New("illegal ICC tag code")
@@ -530,147 +537,150 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				}
 			}
 		}
+	}
 
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
-			command, err := commandReader.ReadBits(8)
+	for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
+		command, err := commandReader.ReadBits(8)
+		if err != nil {
+			return nil, err
+		}
+		if command == 1 {
+			num, err := commandReader.ReadICCVarint()
 			if err != nil {
 				return nil, err
 			}
-			if command == 1 {
-				num, err := commandReader.ReadICCVarint()
+			for i := 0; i < int(num); i++ {
+				dat, err := dataReader.ReadBits(8)
 				if err != nil {
 					return nil, err
 				}
-				for i := 0; i < int(num); i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					h.DecodedICC[resultPos] = byte(dat)
-					resultPos++
-				}
-			} else if command == 2 || command == 3 {
-				num, err := commandReader.ReadICCVarint()
+				h.DecodedICC[resultPos] = byte(dat)
+				resultPos++
+			}
+		} else if command == 2 || command == 3 {
+			num, err := commandReader.ReadICCVarint()
+			if err != nil {
+				return nil, err
+			}
+			b := make([]byte, num)
+			for p := 0; p < int(num); p++ {
+				dat, err := dataReader.ReadBits(8)
 				if err != nil {
 					return nil, err
 				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					b[p] = byte(dat)
-				}
-				var width int32
-				if command == 2 {
-					width = 2
-				} else {
-					width = 4
-				}
-				b = shuffle(b, width)
-				copy(h.DecodedICC[resultPos:], b)
-				resultPos += int32(len(b))
-			} else if command == 4 {
-				flags, err := commandReader.ReadBits(8)
+				b[p] = byte(dat)
+			}
+			var width int32
+			if command == 2 {
+				width = 2
+			} else {
+				width = 4
+			}
+			b = shuffle(b, width)
+			copy(h.DecodedICC[resultPos:], b)
+			resultPos += int32(len(b))
+		} else if command == 4 {
+			flags, err := commandReader.ReadBits(8)
+			if err != nil {
+				return nil, err
+			}
+			width := int32((flags & 3) + 1)
+			if width == 3 {
+				return nil, errors.New("illegal width is 3")
+			}
+			order := int32(flags&12) >> 2
+			if order == 3 {
+				return nil, errors.New("illegal order is 3")
+			}
+			var stride int32
+			if flags&0x10 > 0 {
+				dat, err := commandReader.ReadICCVarint()
 				if err != nil {
 					return nil, err
 				}
-				width := int32((flags & 3) + 1)
-				if width == 3 {
-					return nil, errors.New("illegal width is 3")
-				}
-				order := int32(flags&12) >> 2
-				if order == 3 {
-					return nil, errors.New("illegal order is 3")
-				}
-				var stride int32
-				if flags&0x10 > 0 {
-					dat, err := commandReader.ReadICCVarint()
-					if err != nil {
-						return nil, err
-					}
-					stride = dat
-				} else {
-					stride = int32(width)
-				}
-				if stride*4 >= resultPos {
-					return nil, errors.New("stride too large")
-				}
-				if stride < int32(width) {
-					return nil, errors.New("stride too small")
-				}
-				num, err := commandReader.ReadICCVarint()
+				stride = dat
+			} else {
+				stride = int32(width)
+			}
+			if stride*4 >= resultPos {
+				return nil, errors.New("stride too large")
+			}
+			if stride < int32(width) {
+				return nil, errors.New("stride too small")
+			}
+			num, err := commandReader.ReadICCVarint()
+			if err != nil {
+				return nil, err
+			}
+			b := make([]byte, num)
+			for p := 0; p < int(num); p++ {
+				dat, err := dataReader.ReadBits(8)
 				if err != nil {
 					return nil, err
 				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
+				b[p] = byte(dat)
+			}
+			if width == 2 || width == 4 {
+				b = shuffle(b, int32(width))
+			}
+			for i := int32(0); i < num; i += width {
+				n := order + 1
+				prev := make([]int32, n)
+				for j := int32(0); j < n; j++ {
+					for k := int32(0); k < width; k++ {
+						prev[j] = prev[j] << 8
+						prev[j] = prev[j] | int32(h.DecodedICC[resultPos-stride*(j+1)+k]&0xFF)
 					}
-					b[p] = byte(dat)
 				}
-				if width == 2 || width == 4 {
-					b = shuffle(b, int32(width))
+				var p int32
+				if order == 0 {
+					p = prev[0]
+				} else if order == 1 {
+					p = 2*prev[0] - prev[1]
+				} else {
+					p = 3*prev[0] - 3*prev[1] + prev[2]
 				}
-				for i := int32(0); i < num; i += width {
-					n := order + 1
-					prev := make([]int32, n)
-					for j := int32(0); j < n; j++ {
-						for k := int32(0); k < width; k++ {
-							prev[j] = prev[j] << 8
-							prev[j] = prev[j] | int32(h.DecodedICC[resultPos-stride*(j+1)+k]&0xFF)
-						}
-					}
-					var p int32
-					if order == 0 {
-						p = prev[0]
-					} else if order == 1 {
-						p = 2*prev[0] - prev[1]
-					} else {
-						p = 3*prev[0] - 3*prev[1] + prev[2]
-					}
 
-					for j := int32(0); j < width && i+j < num; j++ {
-						h.DecodedICC[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
-						resultPos++
-					}
-				}
-			} else if command == 10 {
-				h.DecodedICC[resultPos] = 'X'
-				resultPos++
-				h.DecodedICC[resultPos] = 'Y'
-				resultPos++
-				h.DecodedICC[resultPos] = 'Z'
-				resultPos++
-				h.DecodedICC[resultPos] = ' '
-				resultPos++
-				resultPos += 4
-				for i := 0; i < 12; i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					h.DecodedICC[resultPos] = byte(dat)
+				for j := int32(0); j < width && i+j < num; j++ {
+					h.DecodedICC[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
 					resultPos++
 				}
-			} else if command >= 16 && command < 24 {
-				s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
-				trc := []byte(s[command-16])
-				for i := 0; i < 4; i++ {
-					h.DecodedICC[resultPos] = trc[i]
-					resultPos++
+			}
+		} else if command == 10 {
+			h.DecodedICC[resultPos] = 'X'
+			resultPos++
+			h.DecodedICC[resultPos] = 'Y'
+			resultPos++
+			h.DecodedICC[resultPos] = 'Z'
+			resultPos++
+			h.DecodedICC[resultPos] = ' '
+			resultPos++
+			resultPos += 4
+			for i := 0; i < 12; i++ {
+				dat, err := dataReader.ReadBits(8)
+				if err != nil {
+					return nil, err
 				}
-				resultPos += 4
-
-			} else {
-				return nil, errors.New("illegal data command")
+				h.DecodedICC[resultPos] = byte(dat)
+				resultPos++
 			}
+		} else if command >= 16 && command < 24 {
+			s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
+			trc := []byte(s[command-16])
+			for i := 0; i < 4; i++ {
+				h.DecodedICC[resultPos] = trc[i]
+				resultPos++
+			}
+			resultPos += 4
+
+		} else {
+			return nil, errors.New("illegal data command")
 		}
 	}
 
+	if resultPos != outputSize {
+		return nil, errors.New("ICC profile of another size than declared")
+	}
 	return h.DecodedICC, nil
 }
 
@@ -678,8 +688,15 @@ func shuffle(buffer []byte, width int32) []byte {
 
 	height := int32(util.CeilDiv(uint32(len(buffer)), uint32(width)))
 	result := make([]byte, len(buffer))
+	start, j := int32(0), int32(0)
 	for i := int32(0); i < int32(len(buffer)); i++ {
-		result[(i%height)*width+(i/height)] = buffer[i]
+		result[i] = buffer[j]
+		// the last columns may be shorter
+		j += height
+		if j >= int32(len(buffer)) {
+			start++
+			j = start
+		}
 	}
 	return result
 }
@@ -933,6 +950,9 @@ func (h *ImageHeader) GetICCPrediction(buffer []byte, i int32) int32 {
 	if i >= 36 && i <= 39 {
 		return int32(ACSP[i-36])
 	}
+	if i <= 40 {
+		return 0
+	}
 	if buffer[40] == 'A' {
 		if i == 41 || i == 42 {
 			return 'P'
-- 
2.43.0


From 53b3fada6bb406c44c91866731ccc916980e5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 37/73] fix: ChannelToImage scales other depths, clamps and
 uses the channel's own size

---
 core/jxl_image.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 4f04878..503bea5 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -186,27 +186,25 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 	if channelNo < 0 || channelNo >= len(buffer) {
 		return nil, fmt.Errorf("Invalid channel index %d", channelNo)
 	}
-	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
+	channel := &buffer[channelNo]
+	// the Go images made here have 8 bits per sample
+	if channel.IsInt() && jxl.bitDepths[channelNo] == 8 {
+		err = channel.Clamp(255)
+	} else if err = channel.CastToFloatIfMax(^(^0 << jxl.bitDepths[channelNo])); err == nil {
+		err = channel.CastToIntIfMax(255)
+	}
+	if err != nil {
+		return nil, err
+	}
+	img := image.NewGray(image.Rect(0, 0, int(channel.Width), int(channel.Height)))
 	pix := img.Pix
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
-	if buffer[0].IsFloat() {
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-
-				// Assumption of 8 bits per channel. Will do for now.
-				pix[pos] = uint8(buffer[channelNo].FloatBuffer[y][x] * 255)
-				pos++
-			}
-		}
-	} else {
-
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-				pix[pos] = uint8(buffer[channelNo].IntBuffer[y][x])
-				pos++
-			}
+	for y := 0; y < dy; y++ {
+		for x := 0; x < dx; x++ {
+			pix[pos] = uint8(channel.IntBuffer[y][x])
+			pos++
 		}
 	}
 	return img, nil
-- 
2.43.0


From f4816395660e02b5f97c75adcc5cf62caebfc848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 38/73] fix: float samples are numbers and not the integers
 their bits make

---
 bundle/BitDepthHeader.go |  9 ++++++++-
 frame/Frame.go           | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/bundle/BitDepthHeader.go b/bundle/BitDepthHeader.go
index 368cdd5..b5c0063 100644
--- a/bundle/BitDepthHeader.go
+++ b/bundle/BitDepthHeader.go
@@ -1,6 +1,10 @@
 package bundle
 
-import "github.com/kpfaulkner/jxl-go/jxlio"
+import (
+	"fmt"
+
+	"github.com/kpfaulkner/jxl-go/jxlio"
+)
 
 type BitDepthHeader struct {
 	BitsPerSample    uint32
@@ -32,6 +36,9 @@ func NewBitDepthHeaderWithReader(reader jxlio.BitReader) (*BitDepthHeader, error
 		} else {
 			bh.ExpBits = 1 + uint32(expBits)
 		}
+		if bh.ExpBits < 2 || bh.ExpBits > 8 || bh.BitsPerSample < bh.ExpBits+3 || bh.BitsPerSample > bh.ExpBits+24 {
+			return nil, fmt.Errorf("Invalid float samples of %d bits with %d exponent bits", bh.BitsPerSample, bh.ExpBits)
+		}
 	} else {
 		if bh.BitsPerSample, err = reader.ReadU32(8, 0, 10, 0, 12, 0, 1, 6); err != nil {
 			return nil, err
diff --git a/frame/Frame.go b/frame/Frame.go
index b31abe2..3fd80b3 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -450,11 +450,19 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 				}
 			}
 		} else if f.Buffer[cOut].IsFloat() {
-
+			depth := f.GlobalMetadata.BitDepth
+			if cOut >= numColours {
+				depth = &f.GlobalMetadata.ExtraChannelInfo[cOut-numColours].BitDepth
+			}
+			floatSamples := depth.ExpBits != 0 && !isModularXYB
 			outBuffer := f.Buffer[cOut].FloatBuffer
 			for y := range modularBuffer[cIn] {
 				for x := range modularBuffer[cIn][y] {
-					outBuffer[y][x] = scaleFactor * float32(modularBuffer[cIn][y][x])
+					if floatSamples {
+						outBuffer[y][x] = sampleToFloat(modularBuffer[cIn][y][x], depth.BitsPerSample, depth.ExpBits)
+					} else {
+						outBuffer[y][x] = scaleFactor * float32(modularBuffer[cIn][y][x])
+					}
 				}
 			}
 		} else {
@@ -905,6 +913,28 @@ func displayModularChannel(label string, frameBuffer [][]int32) float64 {
 	return total
 }
 
+// sampleToFloat gives the value of a sample that holds the bits of a floating point number
+func sampleToFloat(sample int32, bits uint32, expBits uint32) float32 {
+	mantBits := bits - expBits - 1
+	sign := uint32(sample) >> (bits - 1) & 1
+	exp := uint32(sample) >> mantBits & (1<<expBits - 1)
+	mant := uint32(sample) & (1<<mantBits - 1)
+	if expBits == 8 {
+		return math.Float32frombits(sign<<31 | exp<<23 | mant<<(23-mantBits))
+	}
+	value := float64(mant)
+	if exp == 0 {
+		exp = 1
+	} else {
+		value += float64(uint32(1) << mantBits)
+	}
+	value = math.Ldexp(value, int(exp)-(1<<(expBits-1)-1)-int(mantBits))
+	if sign != 0 {
+		value = -value
+	}
+	return float32(value)
+}
+
 func (f *Frame) invertSubsampling() error {
 	for c := 0; c < 3; c++ {
 		xShift := f.Header.jpegUpsamplingX[c]
-- 
2.43.0


From ae53bc48fe1ce1a951e9d754d36022c657b33747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 39/73] fix: signed values of 31 bits and more

---
 jxlio/bitreader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index ebcff52..615929b 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -500,7 +500,7 @@ func UnpackSigned(value uint32) int32 {
 		return int32(value >> 1)
 	}
 
-	return -(int32(value) + 1) >> 1
+	return ^int32(value >> 1)
 }
 
 func UnpackSigned64(value uint64) int64 {
@@ -508,5 +508,5 @@ func UnpackSigned64(value uint64) int64 {
 		return int64(value >> 1)
 	}
 
-	return -(int64(value) + 1) >> 1
+	return ^int64(value >> 1)
 }
-- 
2.43.0


From 11711b3dee21da09041ba618058718c3e326bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 40/73] fix: predictions from samples of up to 32 bits do not
 overflow

---
 frame/ModularChannel.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index 7e11ea2..53180c2 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -87,7 +87,8 @@ func (mc *ModularChannel) allocate() {
 }
 
 func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
-	var n, v, nw, w int32
+	// sums of samples of up to 32 bits need more than 32 bits
+	wide := func(sample int32) int64 { return int64(sample) }
 	switch k {
 	case 0:
 		return 0, nil
@@ -96,20 +97,20 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 	case 2:
 		return mc.north(x, y), nil
 	case 3:
-		return (mc.west(x, y) + mc.north(x, y)) / 2, nil
+		return int32((wide(mc.west(x, y)) + wide(mc.north(x, y))) / 2), nil
 	case 4:
-		w = mc.west(x, y)
-		n = mc.north(x, y)
-		nw = mc.northWest(x, y)
-		if util.Abs(n-nw) < util.Abs(w-nw) {
+		w := mc.west(x, y)
+		n := mc.north(x, y)
+		nw := wide(mc.northWest(x, y))
+		if util.Abs(wide(n)-nw) < util.Abs(wide(w)-nw) {
 			return w, nil
 		}
 		return n, nil
 	case 5:
-		w = mc.west(x, y)
-		n = mc.north(x, y)
-		v = w + n - mc.northWest(x, y)
-		return util.Clamp3(v, n, w), nil
+		w := mc.west(x, y)
+		n := mc.north(x, y)
+		v := wide(w) + wide(n) - wide(mc.northWest(x, y))
+		return int32(max(min(v, max(wide(n), wide(w))), min(wide(n), wide(w)))), nil
 	case 6:
 		return (mc.pred[y][x] + 3) >> 3, nil
 	case 7:
@@ -119,14 +120,14 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 	case 9:
 		return mc.westWest(x, y), nil
 	case 10:
-		return (mc.west(x, y) + mc.northWest(x, y)) / 2, nil
+		return int32((wide(mc.west(x, y)) + wide(mc.northWest(x, y))) / 2), nil
 	case 11:
-		return (mc.north(x, y) + mc.northWest(x, y)) / 2, nil
+		return int32((wide(mc.north(x, y)) + wide(mc.northWest(x, y))) / 2), nil
 	case 12:
-		return (mc.north(x, y) + mc.northEast(x, y)) / 2, nil
+		return int32((wide(mc.north(x, y)) + wide(mc.northEast(x, y))) / 2), nil
 	case 13:
-		return (6*mc.north(x, y) - 2*mc.northNorth(x, y) + 7*mc.west(x, y) +
-			mc.westWest(x, y) + mc.northEastEast(x, y) + 3*mc.northEast(x, y) + 8) / 16, nil
+		return int32((6*wide(mc.north(x, y)) - 2*wide(mc.northNorth(x, y)) + 7*wide(mc.west(x, y)) +
+			wide(mc.westWest(x, y)) + wide(mc.northEastEast(x, y)) + 3*wide(mc.northEast(x, y)) + 8) / 16), nil
 	default:
 		return 0, errors.New("Illegal predictor state")
 	}
-- 
2.43.0


From 472a15fd13850a6da5a9f665e2b614b2d4c7453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 41/73] fix: integer samples of more than 24 bits keep their
 low bits

---
 frame/Frame.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 3fd80b3..fb0e878 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -468,10 +468,7 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
 			for y := range modularBuffer[cIn] {
-				//copy(outBuffer[y], modularBuffer[cIn][y])
-				for x := range modularBuffer[cIn][y] {
-					outBuffer[y][x] = int32(scaleFactor * float32(modularBuffer[cIn][y][x]))
-				}
+				copy(outBuffer[y], modularBuffer[cIn][y])
 			}
 		}
 	}
-- 
2.43.0


From 65904de1183ad1456963f3f2da65d491f52db9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 42/73] fix: the AFV1, AFV2 and AFV3 transforms were inverted
 as AFV0

---
 frame/PassGroup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 29a3b34..41c46f5 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -318,10 +318,10 @@ func (g *PassGroup) invertAFV(coeffs [][]float32, buffer [][]float32, tt *Transf
 
 	var flipX int32
 	var flipY int32
-	if tt == AFV2 || tt == AFV3 {
+	if tt.ttType == AFV2.ttType || tt.ttType == AFV3.ttType {
 		flipY = 1
 	}
-	if tt == AFV1 || tt == AFV3 {
+	if tt.ttType == AFV1.ttType || tt.ttType == AFV3.ttType {
 		flipX = 1
 	}
 	totalSample := float32(0)
-- 
2.43.0


From 18082eb3253cb3c7d5f39a843f0acef711a7a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 43/73] fix: implement the DCT4 transform instead of panicking

---
 frame/PassGroup.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 41c46f5..1c68140 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -264,7 +264,26 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 				layBlock(scratchBlock[0], frameBuffer[c], util.ZERO, ppf, tt.getPixelSize())
 			case METHOD_DCT4:
-				panic("not implemented")
+				g.auxDCT2(coeffs[c], scratchBlock[3], ppg, util.ZERO, 2)
+				for y := int32(0); y < 2; y++ {
+					for x := int32(0); x < 2; x++ {
+						for iy := int32(0); iy < 4; iy++ {
+							for ix := int32(0); ix < 4; ix++ {
+								scratchBlock[0][iy][ix] = coeffs[c][ppg.Y+y+iy*2][ppg.X+x+ix*2]
+							}
+						}
+						scratchBlock[0][0][0] = scratchBlock[3][y][x]
+						ppf2 := util.Point{
+							X: ppf.X + x<<2,
+							Y: ppf.Y + y<<2,
+						}
+						// rows of coefficients are those of the horizontal frequencies
+						if err := util.InverseDCT2D(scratchBlock[0], frameBuffer[c], util.ZERO, ppf2,
+							util.Dimension{Height: 4, Width: 4}, scratchBlock[1], scratchBlock[2], true); err != nil {
+							return err
+						}
+					}
+				}
 			default:
 				return errors.New("transform not implemented")
 			}
-- 
2.43.0


From 305d4e87d5ca4cf548877a4d395d2a4945134938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 44/73] fix: images with several passes made the decoder panic

---
 frame/PassGroup.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 1c68140..0e2e660 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -109,7 +109,14 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 
 	header := g.frame.Header
 	if prev != nil {
-		panic("not implemented")
+		// coefficients add up over the passes
+		for c := 0; c < 3; c++ {
+			for y, row := range prev.hfCoefficients.quantizedCoeffs[c] {
+				for x, q := range row {
+					g.hfCoefficients.quantizedCoeffs[c][y][x] += q
+				}
+			}
+		}
 	}
 
 	// differs from jxlatte
-- 
2.43.0


From 471b56fad11537060824151ab1524547dc392178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 45/73] fix: quantisation scales of X and B below 2 wrapped
 around

---
 frame/HFCoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 24ce1ab..9a836b3 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -267,9 +267,9 @@ func (hf *HFCoefficients) dequantizeHFCoefficients() error {
 	header := hf.frame.getFrameHeader()
 	globalScale := 65536.0 / float32(hf.frame.getLFGlobal().globalScale)
 	scaleFactor := [3]float32{
-		globalScale * float32(math.Pow(0.8, float64(header.xqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(int32(header.xqmScale)-2))),
 		globalScale,
-		globalScale * float32(math.Pow(0.8, float64(header.bqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(int32(header.bqmScale)-2))),
 	}
 	weights := hf.frame.getHFGlobal().weights
 	qbclut := [][]float32{
-- 
2.43.0


From 48cd50f3b81b23319ca12068302e0373241389a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 46/73] fix: LF correlation factors below 128 wrapped around

---
 frame/lfcoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index 422b263..f531497 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -91,8 +91,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 
 		// TOOD(kpfaulkner) investigate what this really does.
 		lfc := frame.getLFGlobal().lfChanCorr
-		kX := lfc.baseCorrelationX + float32(lfc.xFactorLF-128)/float32(lfc.colorFactor)
-		kB := lfc.baseCorrelationB + float32(lfc.bFactorLF-128)/float32(lfc.colorFactor)
+		kX := lfc.baseCorrelationX + float32(int32(lfc.xFactorLF)-128)/float32(lfc.colorFactor)
+		kB := lfc.baseCorrelationB + float32(int32(lfc.bFactorLF)-128)/float32(lfc.colorFactor)
 		dqLFY := dequantLFCoeff[1]
 		dqLFX := dequantLFCoeff[0]
 		dqLFB := dequantLFCoeff[2]
-- 
2.43.0


From 8b430a51479225faa06597c73465f438d26133fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 47/73] fix: quantisation weights of the AFV transforms were
 interpolated and placed wrongly

---
 frame/HFGlobal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 2b8797c..6554fa5 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -638,8 +638,8 @@ func (hfg *HFGlobal) getAFVTransformWeights(index int, c int) ([][]float32, erro
 			if x < 2 && y < 2 {
 				continue
 			}
-			pos := (afvFreqs[y*4+x] - low) / (high - low)
-			weight[2*x][2*y] = interpolate(float32(pos), bands)
+			pos := (afvFreqs[y*4+x] - low) * 3 / (high - low + 1e-6)
+			weight[2*y][2*x] = interpolate(float32(pos), bands)
 		}
 		for x := 0; x < 8; x++ {
 			if x == 0 && y == 0 {
-- 
2.43.0


From de7e6070bd355da41cc9fcd7c64952655734d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 48/73] fix: blocks that do not start at a correlation tile's
 corner lost their HF colour correlation

---
 frame/HFCoefficients.go | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 9a836b3..576f7d5 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -343,9 +343,6 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 	lfc := hf.frame.getLFGlobal().lfChanCorr
 	xFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[0]
 	bFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[1]
-	xFactors := util.MakeMatrix2D[float32](len(xFactorHF), len(xFactorHF[0]))
-	bFactors := util.MakeMatrix2D[float32](len(bFactorHF), len(bFactorHF[0]))
-
 	// Cache the float32 conversion outside the loops to avoid per-pixel conversion
 	invColorFactor := 1.0 / float32(lfc.colorFactor)
 	baseCorrelationX := lfc.baseCorrelationX
@@ -361,26 +358,12 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 		pPosX := pos.X << 3
 		for iy := int32(0); iy < tt.pixelHeight; iy++ {
 			y := pPosY + iy
-			fy := y >> 6
-			by := fy<<6 == y
-			xF := xFactors[fy]
-			bF := bFactors[fy]
-			hfX := xFactorHF[fy]
-			hfB := bFactorHF[fy]
+			hfX := xFactorHF[y>>6]
+			hfB := bFactorHF[y>>6]
 			for ix := int32(0); ix < tt.pixelWidth; ix++ {
 				x := pPosX + ix
-				fx := x >> 6
-				var kX float32
-				var kB float32
-				if by && fx<<6 == x {
-					kX = baseCorrelationX + float32(hfX[fx])*invColorFactor
-					kB = baseCorrelationB + float32(hfB[fx])*invColorFactor
-					xF[fx] = kX
-					bF[fx] = kB
-				} else {
-					kX = xF[fx]
-					kB = bF[fx]
-				}
+				kX := baseCorrelationX + float32(hfX[x>>6])*invColorFactor
+				kB := baseCorrelationB + float32(hfB[x>>6])*invColorFactor
 				dequantY := hf.dequantHFCoeff[1][y&0xFF][x&0xFF]
 				hf.dequantHFCoeff[0][y&0xFF][x&0xFF] += kX * dequantY
 				hf.dequantHFCoeff[2][y&0xFF][x&0xFF] += kB * dequantY
-- 
2.43.0


From b5df40ff152a3697b030fe91e6a6d855ddc1c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 49/73] fix: quantisation tables of the DCT4 kind were scaled
 wrongly and those of the DCT4x8 kind rejected

---
 frame/HFGlobal.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 6554fa5..d89c6e3 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -342,7 +342,7 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 				if err != nil {
 					return err
 				}
-				m[y][x] = 64.0 * mm
+				m[y][x] = mm
 			}
 		}
 		dctParam, err := hfg.readDCTParams(reader)
@@ -350,6 +350,20 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 			return err
 		}
 		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4, denominator: 1, params4x4: nil}
+	case MODE_DCT4_8:
+		m := util.MakeMatrix2D[float32](3, 1)
+		for y := int32(0); y < 3; y++ {
+			mm, err := reader.ReadF16()
+			if err != nil {
+				return err
+			}
+			m[y][0] = mm
+		}
+		dctParam, err := hfg.readDCTParams(reader)
+		if err != nil {
+			return err
+		}
+		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4_8, denominator: 1, params4x4: nil}
 	case MODE_DCT:
 		dctParam, err := hfg.readDCTParams(reader)
 		if err != nil {
-- 
2.43.0


From c4fc2a220ab9574494e366ce13eff7aaa7ac5c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 50/73] fix: filters and chroma upsampling took samples from
 beyond the frame's edges

---
 core/jxl_codestream_decoder.go |  8 ++------
 frame/Frame.go                 | 37 ++++++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 0268841..733a6a1 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -722,12 +722,8 @@ func (jxl *JXLCodestreamDecoder) performColourTransforms(matrix *colour.OpsinInv
 	}
 
 	if frame.Header.DoYCbCr {
-		size, err := frame.GetPaddedFrameSize()
-		if err != nil {
-			return err
-		}
-		for y := uint32(0); y < size.Height; y++ {
-			for x := uint32(0); x < size.Width; x++ {
+		for y := range buffers[0] {
+			for x := range buffers[0][y] {
 				cb := buffers[0][y][x]
 				yh := buffers[1][y][x] + 0.50196078431372549019
 				cr := buffers[2][y][x]
diff --git a/frame/Frame.go b/frame/Frame.go
index fb0e878..6fe0ede 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -473,9 +473,12 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		}
 	}
 
+	// what lies beyond the frame's edges takes no part in the filters
+	f.cropColours(true)
 	if err := f.invertSubsampling(); err != nil {
-		return nil
+		return err
 	}
+	f.cropColours(false)
 
 	if f.Header.restorationFilter.gab {
 		if err := f.performGabConvolution(); err != nil {
@@ -491,6 +494,32 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 	return nil
 }
 
+// cropColours cuts the colour channels, which are padded to whole blocks, to
+// the size of the frame.
+func (f *Frame) cropColours(subsampled bool) {
+	size := f.Header.Bounds.Size
+	for c := 0; c < f.GetColourChannelCount(); c++ {
+		height, width := size.Height, size.Width
+		if subsampled && c < 3 {
+			height = util.CeilDiv(height, 1<<f.Header.jpegUpsamplingY[c])
+			width = util.CeilDiv(width, 1<<f.Header.jpegUpsamplingX[c])
+		}
+		buf := &f.Buffer[c]
+		if buf.IsFloat() {
+			buf.FloatBuffer = buf.FloatBuffer[:height]
+			for y := range buf.FloatBuffer {
+				buf.FloatBuffer[y] = buf.FloatBuffer[y][:width]
+			}
+		} else {
+			buf.IntBuffer = buf.IntBuffer[:height]
+			for y := range buf.IntBuffer {
+				buf.IntBuffer[y] = buf.IntBuffer[y][:width]
+			}
+		}
+		buf.Height, buf.Width = int32(height), int32(width)
+	}
+}
+
 func (f *Frame) setupBitReaders() error {
 	f.bitreaders = make([]jxlio.BitReader, len(f.tocLengths))
 	if len(f.tocLengths) != 1 {
@@ -1164,7 +1193,7 @@ func (f *Frame) performEdgePreservingFilter() error {
 		if err = f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 			return err
 		}
-		outBuf, err := image.NewImageBuffer(image.TYPE_FLOAT, int32(paddedSize.Height), int32(paddedSize.Width))
+		outBuf, err := image.NewImageBuffer(image.TYPE_FLOAT, f.Buffer[0].Height, f.Buffer[0].Width)
 		if err != nil {
 			return err
 		}
@@ -1178,8 +1207,8 @@ func (f *Frame) performEdgePreservingFilter() error {
 	// Threshold for skipping EPF (1.0 / 0.3)
 	const skipThreshold = float32(1.0 / 0.3)
 
-	height := int32(paddedSize.Height)
-	width := int32(paddedSize.Width)
+	height := f.Buffer[0].Height
+	width := f.Buffer[0].Width
 
 	for i := 0; i < 3; i++ {
 		if i == 0 && f.Header.restorationFilter.epfIterations < 3 {
-- 
2.43.0


From edfec002f81c7a0ee3bab2017d433b1f06e7e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 51/73] fix: frames with subsampled chroma and an odd size were
 rounded up

---
 frame/FrameHeader.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index b55b7c9..e14ec99 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -391,8 +391,6 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 
 	maxJPY := util.Max(fh.jpegUpsamplingY...)
 	maxJPX := util.Max(fh.jpegUpsamplingX...)
-	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, 1<<maxJPY) << maxJPY
-	fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, 1<<maxJPX) << maxJPX
 
 	for i := 0; i < 3; i++ {
 		fh.jpegUpsamplingY[i] = maxJPY - fh.jpegUpsamplingY[i]
-- 
2.43.0


From d0e20e67a9a9c8391993d995f184aecb99b5781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 52/73] fix: modular frames with subsampled chroma read their
 channels at full size

---
 frame/ModularStream.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 8ed4734..c85dce1 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -221,17 +221,21 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 
 	if len(channelArray) == 0 {
 		for i := 0; i < channelCount; i++ {
-			size := frame.getFrameHeader().Bounds.Size
-			var dimShift int32
+			header := frame.getFrameHeader()
+			size := header.Bounds.Size
+			var vshift, hshift int32
 			if i >= ecStart {
-				dimShift, err = frame.getFrameHeader().extraChannelShift(frame.getGlobalMetadata(), i-ecStart)
+				vshift, err = header.extraChannelShift(frame.getGlobalMetadata(), i-ecStart)
 				if err != nil {
 					return nil, err
 				}
-				size.Height = util.CeilDiv(size.Height, 1<<dimShift)
-				size.Width = util.CeilDiv(size.Width, 1<<dimShift)
+				hshift = vshift
+			} else if header.DoYCbCr && i < 3 {
+				vshift, hshift = header.jpegUpsamplingY[i], header.jpegUpsamplingX[i]
 			}
-			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), dimShift, dimShift, false))
+			size.Height = util.CeilDiv(size.Height, 1<<vshift)
+			size.Width = util.CeilDiv(size.Width, 1<<hshift)
+			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), vshift, hshift, false))
 		}
 	} else {
 		//ms.channels = append(ms.channels, channelArray...)
-- 
2.43.0


From 21c41e07102617f6498f06b2da38d05d5da2daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 53/73] fix: frames with an LF frame take their whole LF image
 from it

---
 frame/Frame.go          |  9 +++++++++
 frame/lfcoefficients.go | 27 ++++++++++++++++++---------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 6fe0ede..71541d8 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -624,6 +624,15 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 		}
 	}
 
+	if f.Header.Flags&USE_LF_FRAME != 0 {
+		// the LF groups below all read the LF frame, so convert it before they start
+		for c := range lfBuffer {
+			if err := lfBuffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
+				return err
+			}
+		}
+	}
+
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
 
 	errChan := make(chan error, f.numLFGroups)
diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index f531497..260b34b 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -41,20 +41,29 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 
 	if (header.Flags & USE_LF_FRAME) != 0 {
 		pos := frame.getLFGroupLocation(parent.lfGroupID)
-		pY := pos.Y << 8
-		pX := pos.X << 8
-		lf.dequantLFCoeff = dequantLFCoeff
+		blocksPerLFGroup := int(header.lfGroupDim >> 3)
+		pY := int(pos.Y) * blocksPerLFGroup
+		pX := int(pos.X) * blocksPerLFGroup
+		lfColours := len(lfBuffer) - len(frame.getGlobalMetadata().ExtraChannelInfo)
+		if lfColours < 1 {
+			return nil, errors.New("LF frame missing")
+		}
 		for c := 0; c < 3; c++ {
-			if err := lfBuffer[c].CastToFloatIfMax(^(^0 << frame.getGlobalMetadata().BitDepth.BitsPerSample)); err != nil {
-				return nil, err
+			lfChannel := &lfBuffer[0]
+			if lfColours > c {
+				lfChannel = &lfBuffer[c]
 			}
-			b := lfBuffer[c].FloatBuffer
-			for y := int32(0); y < int32(len(dequantLFCoeff[c])); y++ {
-				for x, d := pX, 0; x < pX+int32(len(dequantLFCoeff[c][y])); x, d = x+1, d+1 {
-					dequantLFCoeff[c][y][d] = b[pY+y][x]
+			b := lfChannel.FloatBuffer
+			for y, row := range dequantLFCoeff[c] {
+				if pY+y >= len(b) || pX+len(row) > len(b[pY+y]) {
+					return nil, errors.New("LF frame too small")
 				}
+				copy(row, b[pY+y][pX:])
 			}
 		}
+		// the LF frame replaces the LF coefficients, none of which are coded
+		lf.dequantLFCoeff = dequantLFCoeff
+		return lf, nil
 	}
 
 	extraPrecision, err := reader.ReadBits(2)
-- 
2.43.0


From 12c597efb6e1f65692d36eef38e4c101ed47a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 54/73] fix: header extension lengths are in bits

---
 bundle/Extensions.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index 32edf44..dcc94ee 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -25,27 +25,27 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 		return nil, err
 	}
 
-	var length uint64
-	for i := uint64(0); i < 64; i++ {
+	// lengths are in bits
+	var lengths [64]uint64
+	for i := range lengths {
 		if (1<<i)&ex.ExtensionsKey != 0 {
-			if length, err = reader.ReadU64(); err != nil {
+			if lengths[i], err = reader.ReadU64(); err != nil {
 				return nil, err
 			}
-			if length > math.MaxUint32 {
+			if lengths[i] > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, length)
 		}
 	}
-	for i := 0; i < 64; i++ {
-		if len(ex.Payloads[i]) > 0 {
-			for j := 0; j < len(ex.Payloads[i]); j++ {
-				if bits, err := reader.ReadBits(8); err != nil {
-					return nil, err
-				} else {
-					ex.Payloads[i][j] = byte(bits)
-				}
+	for i, length := range lengths {
+		for length > 0 {
+			n := min(length, 8)
+			bits, err := reader.ReadBits(uint32(n))
+			if err != nil {
+				return nil, err
 			}
+			ex.Payloads[i] = append(ex.Payloads[i], byte(bits))
+			length -= n
 		}
 	}
 	return ex, nil
-- 
2.43.0


From 4b9dab0033267e7617978889ffc1a9ded795372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 55/73] fix: image sizes beyond the limits overflowed, preview
 sizes in eighths were taken as pixels

---
 bundle/image_header.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 4f49859..cfb34e0 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -751,7 +751,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 		if height, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 			return nil, err
 		} else {
-			dim.Height = height
+			dim.Height = height << 3
 		}
 	} else {
 		if height, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -775,7 +775,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 			if width, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 				return nil, err
 			} else {
-				dim.Width = width
+				dim.Width = width << 3
 			}
 		} else {
 			if width, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -850,7 +850,7 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 		log.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 	}
-	if uint64(dim.Width*dim.Height) > maxTimes {
+	if uint64(dim.Width)*uint64(dim.Height) > maxTimes {
 		log.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 	}
@@ -859,24 +859,26 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 }
 
 func getWidthFromRatio(ratio uint32, height uint32) (uint32, error) {
-	switch ratio {
+	var width uint64
+	switch h := uint64(height); ratio {
 	case 1:
-		return height, nil
+		width = h
 	case 2:
-		return height * 6 / 5, nil
+		width = h * 6 / 5
 	case 3:
-		return height * 4 / 3, nil
+		width = h * 4 / 3
 	case 4:
-		return height * 3 / 2, nil
+		width = h * 3 / 2
 	case 5:
-		return height * 16 / 9, nil
+		width = h * 16 / 9
 	case 6:
-		return height * 5 / 4, nil
+		width = h * 5 / 4
 	case 7:
-		return height * 2, nil
+		width = h * 2
 	default:
 		return 0, fmt.Errorf("invalid ratio: %d", ratio)
 	}
+	return uint32(width), nil
 }
 
 func (h *ImageHeader) GetUpWeights() ([][][][][]float32, error) {
-- 
2.43.0


From 25fa4f626e56592c8d80def6cbc8eb1d14e387e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 56/73] fix: XYB colour encodings code no transfer function,
 gammas too small to use are errors

---
 colour/colour_encoding_bundle.go | 11 ++++++++---
 colour/colour_flags.go           |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/colour/colour_encoding_bundle.go b/colour/colour_encoding_bundle.go
index b1e6c6e..7fd2f61 100644
--- a/colour/colour_encoding_bundle.go
+++ b/colour/colour_encoding_bundle.go
@@ -110,10 +110,15 @@ func NewColourEncodingBundleWithReader(reader jxlio.BitReader) (*ColourEncodingB
 
 	if !allDefault && !ceb.UseIccProfile {
 		var useGamma bool
-		if useGamma, err = reader.ReadBool(); err != nil {
-			return nil, err
+		if ceb.ColourEncoding != CE_XYB {
+			if useGamma, err = reader.ReadBool(); err != nil {
+				return nil, err
+			}
 		}
-		if useGamma {
+		if ceb.ColourEncoding == CE_XYB {
+			// implied, as its white point and primaries
+			ceb.Tf = 3333333
+		} else if useGamma {
 			if tf, err := reader.ReadBits(24); err != nil {
 				return nil, err
 			} else {
diff --git a/colour/colour_flags.go b/colour/colour_flags.go
index 4419624..99218f7 100644
--- a/colour/colour_flags.go
+++ b/colour/colour_flags.go
@@ -49,7 +49,8 @@ func ValidateRenderingIntent(renderingIntent int32) bool {
 
 func ValidateTransfer(transfer int32) bool {
 
-	if transfer < 0 {
+	// a gamma of at least 1/8192
+	if transfer < 1221 {
 		return false
 	} else if transfer <= 10_000_000 {
 		return true
-- 
2.43.0


From ad69313d92c820df4466c5eb6792572de2a4e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 57/73] fix: integer samples have at most 31 bits

---
 bundle/BitDepthHeader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bundle/BitDepthHeader.go b/bundle/BitDepthHeader.go
index b5c0063..c1ee550 100644
--- a/bundle/BitDepthHeader.go
+++ b/bundle/BitDepthHeader.go
@@ -43,6 +43,9 @@ func NewBitDepthHeaderWithReader(reader jxlio.BitReader) (*BitDepthHeader, error
 		if bh.BitsPerSample, err = reader.ReadU32(8, 0, 10, 0, 12, 0, 1, 6); err != nil {
 			return nil, err
 		}
+		if bh.BitsPerSample > 31 {
+			return nil, fmt.Errorf("Invalid integer samples of %d bits", bh.BitsPerSample)
+		}
 
 		bh.ExpBits = 0
 	}
-- 
2.43.0


From bf4c9465f3188b93c7f603d981a9dba388e5fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 58/73] fix: sections end at their coded length

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 71541d8..0cfbe2f 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -528,7 +528,7 @@ func (f *Frame) setupBitReaders() error {
 			if err != nil {
 				return err
 			}
-			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer))
+			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer[:f.tocLengths[i]]))
 		}
 	} else {
 		f.bitreaders[0] = f.reader
-- 
2.43.0


From 1266807f874d0779c1a0c1e1450b823ddbf33ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 59/73] fix: the only section of a frame ends at its coded
 length

---
 frame/Frame.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 0cfbe2f..478cd46 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -522,16 +522,12 @@ func (f *Frame) cropColours(subsampled bool) {
 
 func (f *Frame) setupBitReaders() error {
 	f.bitreaders = make([]jxlio.BitReader, len(f.tocLengths))
-	if len(f.tocLengths) != 1 {
-		for i := 0; i < len(f.tocLengths); i++ {
-			buffer, err := f.readBuffer(i)
-			if err != nil {
-				return err
-			}
-			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer[:f.tocLengths[i]]))
+	for i := 0; i < len(f.tocLengths); i++ {
+		buffer, err := f.readBuffer(i)
+		if err != nil {
+			return err
 		}
-	} else {
-		f.bitreaders[0] = f.reader
+		f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer[:f.tocLengths[i]]))
 	}
 	return nil
 }
-- 
2.43.0


From c4a7b4b76096d8ac1ef83221cbece994ad563f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 60/73] fix: a single symbol of an ANS histogram must be in the
 alphabet

---
 entropy/ANSSymbolDistribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index 805e645..1e5a4a1 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -68,6 +68,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				return nil, err
 			}
 			asd.alphabetSize = 1 + int32(x)
+			if asd.alphabetSize > (1 << asd.logAlphabetSize) {
+				return nil, fmt.Errorf("Illegal Alphabet size : %d", asd.alphabetSize)
+			}
 			asd.frequencies = make([]int32, asd.alphabetSize)
 			asd.frequencies[x] = 1 << 12
 			uniqPos = int32(x)
-- 
2.43.0


From b0aff06f43f60231008c2adfa7095836a6b2b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 61/73] fix: cluster maps that leave a cluster unused are
 invalid

---
 entropy/EntropyStream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 35befff..5b9ef43 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -158,6 +158,15 @@ func ReadClusterMap(reader jxlio.BitReader, clusterMap []int, maxClusters int) (
 	if numClusters > maxClusters {
 		return 0, errors.New("Too many clusters")
 	}
+	used := make([]bool, numClusters)
+	for _, c := range clusterMap {
+		used[c] = true
+	}
+	for _, u := range used {
+		if !u {
+			return 0, errors.New("Unused cluster")
+		}
+	}
 	return numClusters, nil
 }
 
-- 
2.43.0


From 58f16febec03b3444867e602b2b733b0fdb701b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 62/73] fix: ANS histograms must leave something for the
 omitted symbol

---
 entropy/ANSSymbolDistribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index 1e5a4a1..9b7388d 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -199,6 +199,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				totalCount += asd.frequencies[i]
 			}
 			asd.frequencies[omitPos] = (1 << 12) - totalCount
+			if asd.frequencies[omitPos] <= 0 {
+				return nil, errors.New("Invalid ANS frequencies")
+			}
 		}
 	}
 	asd.generateAliasMapping(uniqPos)
-- 
2.43.0


From d11472dd8f180d2d8f9fdd4112827f9db40747e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 63/73] fix: skipping 2^29 bytes or more skipped that modulo
 2^29 bytes

---
 jxlio/bitreader.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 615929b..690acfe 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -454,9 +454,13 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 }
 
 func (br *BitStreamReader) Skip(bytes uint32) (int64, error) {
-	err := br.SkipBits(bytes << 3)
-	if err != nil {
-		return 0, err
+	// in parts, as the number of bits may exceed 32 bits.
+	for remaining := bytes; remaining > 0; {
+		count := min(remaining, 1<<16)
+		if err := br.SkipBits(count << 3); err != nil {
+			return 0, err
+		}
+		remaining -= count
 	}
 	return int64(bytes), nil
 }
-- 
2.43.0


From 0935d12dc2643716ca592a11cebaef9a2e502445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 64/73] fix: a failed cast to integers left a float buffer
 marked as integers

---
 image/imagebuffer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/image/imagebuffer.go b/image/imagebuffer.go
index 60d30a0..8d330f7 100644
--- a/image/imagebuffer.go
+++ b/image/imagebuffer.go
@@ -192,9 +192,7 @@ func (ib *ImageBuffer) CastToIntIfMax(maxValue int32) error {
 		return nil
 	}
 
-	err := ib.castToIntBuffer(maxValue)
-	ib.BufferType = TYPE_INT
-	return err
+	return ib.castToIntBuffer(maxValue)
 }
 
 func (ib *ImageBuffer) castToIntBuffer(maxValue int32) error {
-- 
2.43.0


From 256441ba009cd10d492fd0aeadc0b4a7edd5990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 65/73] fix: CeilDiv of zero wrapped around

---
 util/MathsHelper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/MathsHelper.go b/util/MathsHelper.go
index f7ac6a8..5eec874 100644
--- a/util/MathsHelper.go
+++ b/util/MathsHelper.go
@@ -299,6 +299,9 @@ func InvertMatrix3x3(matrix [][]float32) [][]float32 {
 }
 
 func CeilDiv(numerator uint32, denominator uint32) uint32 {
+	if numerator == 0 {
+		return 0
+	}
 	return ((numerator - 1) / denominator) + 1
 }
 
-- 
2.43.0


From 0130f4d81fb3376e60bad2e43e1394fd87465186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 66/73] fix: Add overwrote the item it inserts before

---
 util/misc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/misc.go b/util/misc.go
index 475cbaa..90c6e5b 100644
--- a/util/misc.go
+++ b/util/misc.go
@@ -94,9 +94,10 @@ func FillFloat32(a []float32, fromIndex uint32, toIndex uint32, val float32) {
 }
 
 func Add[T any](slice []T, index int, elem T) []T {
-	newSlice := append(slice[:index], elem)
-	newSlice = append(newSlice, slice[index:]...)
-	return newSlice
+	newSlice := make([]T, 0, len(slice)+1)
+	newSlice = append(newSlice, slice[:index]...)
+	newSlice = append(newSlice, elem)
+	return append(newSlice, slice[index:]...)
 }
 
 type Dimension struct {
-- 
2.43.0


From 2cc851ae25794942aec4d57f967e94ad1541594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 67/73] fix: Matrix3Equal panicked or missed a difference of
 matrices of other sizes

---
 util/MathsHelper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/MathsHelper.go b/util/MathsHelper.go
index 5eec874..6314e43 100644
--- a/util/MathsHelper.go
+++ b/util/MathsHelper.go
@@ -328,7 +328,13 @@ func Matrix3Equal[T comparable](a [][][]T, b [][][]T) bool {
 		return false
 	}
 	for i := 0; i < len(a); i++ {
+		if len(a[i]) != len(b[i]) {
+			return false
+		}
 		for j := 0; j < len(a[i]); j++ {
+			if len(a[i][j]) != len(b[i][j]) {
+				return false
+			}
 			for k := 0; k < len(a[i][j]); k++ {
 				if a[i][j][k] != b[i][j][k] {
 					return false
-- 
2.43.0


From 2b8abd533663c0059e447c30d9034b5cf5997aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 68/73] fix: squeezing meta channels moved their shifts

---
 frame/ModularStream.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c85dce1..c25abd6 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -328,13 +328,18 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 					if spa[j].horizontal {
 						w := ch.size.Width
 						ch.size.Width = (w + 1) / 2
-						ch.hshift++
+						// the shifts of meta channels stay negative
+						if ch.hshift >= 0 {
+							ch.hshift++
+						}
 						residu = NewModularChannelFromChannel(*ch)
 						residu.size.Width = w / 2
 					} else {
 						h := ch.size.Height
 						ch.size.Height = (h + 1) / 2
-						ch.vshift++
+						if ch.vshift >= 0 {
+							ch.vshift++
+						}
 						residu = NewModularChannelFromChannel(*ch)
 						residu.size.Height = h / 2
 					}
-- 
2.43.0


From 7e641424fb394b2eacaefabd0523737b7b1abef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 69/73] fix: parse-only decoding of a valid file failed at its
 end

---
 core/jxl_codestream_decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 733a6a1..a6ea53f 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -156,7 +156,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 			frameCount++
 
-			if jxl.lfBuffer[header.LfLevel] == nil && header.Flags&frame.USE_LF_FRAME != 0 {
+			if !jxl.options.ParseOnly && jxl.lfBuffer[header.LfLevel] == nil && header.Flags&frame.USE_LF_FRAME != 0 {
 				return nil, errors.New("LF level too large")
 			}
 
@@ -169,6 +169,9 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				if err := imgFrame.SkipFrameData(); err != nil {
 					return nil, err
 				}
+				if header.IsLast {
+					break
+				}
 				continue
 			}
 
-- 
2.43.0


From 61cec00bf86cb895e51e9dc541a67b1da1e2aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 70/73] fix: a limit of one goroutine was ignored

---
 options/jxl_options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options/jxl_options.go b/options/jxl_options.go
index 0724d9e..6c923e4 100644
--- a/options/jxl_options.go
+++ b/options/jxl_options.go
@@ -20,7 +20,7 @@ func NewJXLOptions(options *JXLOptions) *JXLOptions {
 		opt.debug = options.debug
 		opt.ParseOnly = options.ParseOnly
 
-		if options.MaxGoroutines > 1 {
+		if options.MaxGoroutines > 0 {
 			opt.MaxGoroutines = options.MaxGoroutines
 		}
 	}
-- 
2.43.0


From 346556468ed3d71c6dcbd9de0f91c768647b9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 71/73] fix: the PQ transfer function and its inverse did not
 match their definition

---
 colour/transfer_function.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/colour/transfer_function.go b/colour/transfer_function.go
index de9f6e0..c1f80f4 100644
--- a/colour/transfer_function.go
+++ b/colour/transfer_function.go
@@ -53,11 +53,11 @@ type PQTransferFunction struct {
 
 func (tf PQTransferFunction) ToLinear(input float64) float64 {
 	d := math.Pow(input, 0.012683313515655965121)
-	return math.Pow((d-0.8359375)/(18.8515625+18.6875*d), 6.2725880551301684533)
+	return math.Pow(math.Max(d-0.8359375, 0)/(18.8515625-18.6875*d), 6.277394636015326)
 }
 
 func (tf PQTransferFunction) FromLinear(input float64) float64 {
-	d := math.Pow(input, 0.159423828125)
+	d := math.Pow(input, 0.1593017578125)
 	return math.Pow((0.8359375+18.8515625*d)/(1.0+18.6875*d), 78.84375)
 }
 
-- 
2.43.0


From 8526ce1fee4b71206c7b2e4a17f9e4a6f0fed81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:31 +0000
Subject: [PATCH 72/73] fix: passes of frames with a default header or for
 reference only were not set up

---
 frame/FrameHeader.go |  2 +-
 frame/PassesInfo.go  | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index e14ec99..02e8bf1 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -192,7 +192,7 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			return nil, err
 		}
 	} else {
-		fh.passes = NewPassesInfo()
+		fh.passes = newSinglePass()
 	}
 
 	if fh.FrameType == LF_FRAME {
diff --git a/frame/PassesInfo.go b/frame/PassesInfo.go
index 70d4109..39c6684 100644
--- a/frame/PassesInfo.go
+++ b/frame/PassesInfo.go
@@ -20,6 +20,17 @@ func NewPassesInfo() *PassesInfo {
 	return pi
 }
 
+// newSinglePass describes the one pass of frames whose header does not say
+// anything about passes.
+func newSinglePass() *PassesInfo {
+	return &PassesInfo{
+		numPasses:  1,
+		shift:      []uint32{0},
+		downSample: []uint32{1},
+		lastPass:   []uint32{0},
+	}
+}
+
 func NewPassesInfoWithReader(reader jxlio.BitReader) (*PassesInfo, error) {
 	pi := &PassesInfo{}
 	if numPasses, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 3); err != nil {
-- 
2.43.0


From 982a904cc96272a6421078a9bc54a0417c84abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:05 +0000
Subject: [PATCH 73/73] fix: modular YCbCr frames of grey images were taken to
 code one channel

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 478cd46..54d3fb4 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -537,7 +537,7 @@ func (f *Frame) IsVisible() bool {
 }
 
 func (f *Frame) GetColourChannelCount() int {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.DoYCbCr || f.Header.Encoding == VARDCT {
 		return 3
 	}
 	return f.GlobalMetadata.GetColourChannelCount()
@@ -1712,7 +1712,7 @@ func (f *Frame) getGroupSize(groupID int32) (util.Dimension, error) {
 }
 
 func (f *Frame) getColourChannelCount() int32 {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.DoYCbCr || f.Header.Encoding == VARDCT {
 		return 3
 	}
 	return int32(f.GlobalMetadata.GetColourChannelCount())
-- 
2.43.0

