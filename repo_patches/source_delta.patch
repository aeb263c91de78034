From 9f798f3754f5048c3bbd834116e77e4fa7d40536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:47 +0000
Subject: [PATCH 01/35] fix: RBBlockBuffer must not let the tail catch up with
 the head

A block that exactly filled the gap up to the oldest block left head == tail,
which Alloc reads as 'not wrapped', so the next block overwrote held data.
---
 collections/buffer_rb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..1c58267 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -60,11 +60,11 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 	}
 
 	over := tail < head
-	if over && head-tail >= size {
+	if over && head-tail > size {
 		// 已经回环, 并且头部有大小合适的内存空间
 	} else if !over && r.capacity-tail >= size {
 		// 尾部有大小合适的内存空间
-	} else if !over && head >= oldBlock.size+size {
+	} else if !over && head > oldBlock.size+size {
 		// 形成回环, 尾部空间不够, 但是头部空间足够
 
 		// 修改有效内存容量大小, 前一个完整block的结束位置
-- 
2.43.0


From cbe1543d04b7c2796fea84c03f3f54bf55441734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:47 +0000
Subject: [PATCH 02/35] fix: RBBlockBuffer must remember blocks discarded by
 earlier growths

A second growth overwrote the count of discarded blocks that were still to be
released, so releasing them popped blocks that were still in use.
---
 collections/buffer_rb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 1c58267..8fe81a3 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -82,8 +82,10 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		// 之前扩容时丢弃的block可能还未释放, 需要累加
+		count := bufio.MaxInt(r.blocks.Size()-1, 0)
+		r.discardBlockCount += count
+		for i := 0; i < count; i++ {
 			r.blocks.Pop()
 		}
 	}
-- 
2.43.0


From 985d446cbc4849d33377c6d9e604388f703d0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:47 +0000
Subject: [PATCH 03/35] fix: RBBlockBuffer.PopBack of a block discarded by a
 growth

Dropping the newest block hit the queue's assertion when that block had already
been discarded from the queue by a growth.
---
 collections/buffer_rb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 8fe81a3..96f71db 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -111,6 +111,18 @@ func (r *RBBlockBuffer) Pop() {
 	}
 }
 
+func (r *RBBlockBuffer) PopBack() {
+	utils.Assert(!r.sealed)
+
+	// 最后一个block已在扩容时丢弃
+	if r.blocks.IsEmpty() && r.discardBlockCount > 0 {
+		r.discardBlockCount--
+		return
+	}
+
+	r.DirectBlockBuffer.PopBack()
+}
+
 func (r *RBBlockBuffer) Clear() {
 	r.DirectBlockBuffer.Clear()
 	r.capacity = cap(r.data)
-- 
2.43.0


From c4bf5938dbaeda25b99f1117d3e699f705dc14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 04/35] fix: SplitOff must not leave stale bytes in the new
 buffer nor share memory with the old one

The new buffer kept the old write offset although its data starts at the split,
so it exposed bytes nobody wrote and sliced out of range; the old buffer kept
the capacity handed over, so reusing it wrote over the new buffer.
---
 collections/buffer_direct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..e8800d8 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -122,14 +122,16 @@ func (b *DirectBlockBuffer) Size() int {
 
 func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 	b.sealed = true
+	data := b.data[b.nextOffset:]
+	// 剩余的内存归新的缓冲区所有, 后续重用时不能再写入
+	b.data = b.data[:b.nextOffset:b.nextOffset]
 	return &DirectBlockBuffer{
-		data: b.data[b.nextOffset:],
+		data: data,
 		blocks: NewQueue[*struct {
 			index     int
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
 	}
 }
 
-- 
2.43.0


From 1384e3cdaf9cd37b50f414afbdaf9a8aaaa7a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:48 +0000
Subject: [PATCH 05/35] fix: StreamsBuffer must create every missing buffer up
 to the requested index

Using a stream index above the number of existing buffers appended one
buffer only: the call panicked, or used another stream's buffer.
---
 streams_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..24a9d3a 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,8 +10,8 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
-	if !exist {
+	// index可能不连续, 补齐之前的缓冲区
+	for index >= len(s.buffers) {
 		if utils.AVMediaTypeVideo == mediaType {
 			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
 		} else {
-- 
2.43.0


From 7e142ba2048263fec89c87352a8939346de9a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 06/35] fix: a packet must be buffered in the list of its own
 track

When the first frame of a track arrived before any frame of a track with
a lower index, it was appended to the wrong list: tracks shared a list,
durations mixed two tracks and packets were withheld or lost.
---
 demuxer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..69c85cb 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -253,14 +253,11 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
 	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	for packet.Index >= len(s.Packets) {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
 
+	packets = s.Packets[packet.Index]
 	packets.Add(packet)
 
 	prevPacketIndex := packets.Size() - 2
-- 
2.43.0


From 57ee56574621aec01975e39c162ee0cd3f9406b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:56 +0000
Subject: [PATCH 07/35] fix: replay buffered packets with a stable sort

Packets of one track with equal DTS could be replayed out of order.
---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 69c85cb..bbf07af 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -463,7 +463,7 @@ func (s *BaseDemuxer) OnProbeComplete() {
 	}
 
 	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From 88f329674c071c2f3b18f12299cb9783a992aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:00 +0000
Subject: [PATCH 08/35] fix: HEVC configuration records with several SPS

Unmarshal appended each SPS to the PPS list, losing earlier SPS or mixing
PPS into the SPS list.
---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..fca11c2 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -189,7 +189,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From a8d0d8bd4b050eec999ea043cdc50b6ebb057ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:04 +0000
Subject: [PATCH 09/35] fix: keep the declared PCM sample rate when no standard
 rate fits

The fallback was the sample size in bits instead of the sample rate.
---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index bbf07af..8a393a8 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -358,7 +358,7 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 			continue
 		}
 
-		var sampleRate = track.GetStream().SampleSize
+		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
 			sampleRate = 8000
-- 
2.43.0


From f3978e6afeec5bb199483097bdaf8f2af138aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:57 +0000
Subject: [PATCH 10/35] fix: estimate the rate of each PCM and G.726 track from
 its own frames

The rate of the first such track with a buffered frame was given to all
of them.
---
 demuxer.go | 95 ++++++++++++++++++------------------------------------
 1 file changed, 32 insertions(+), 63 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index 8a393a8..2ad0910 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -331,70 +331,33 @@ func (s *BaseDemuxer) findTrackByBufferIndex(index int) Track {
 }
 
 // calculatePCMFrequency 计算pcm采样率
-func (s *BaseDemuxer) calculatePCMFrequency() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
-			continue
-		}
-
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdPCMS16LE {
-			continue
-		}
-
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
-	}
-
+func (s *BaseDemuxer) calculatePCMFrequency(stream *AVStream, pkt *AVPacket) bool {
+	pktDuration := int(pkt.GetDuration(1000))
+	pktDataSize := len(pkt.Data)
 	if pktDuration < 1 {
 		return false
 	}
 
-	for _, track := range s.Tracks.Tracks {
-		if track.GetStream().CodecID != utils.AVCodecIdPCMS16LE {
-			continue
-		}
-
-		var sampleRate = track.GetStream().SampleRate
-		msSize := pktDataSize / pktDuration
-		if msSize <= 16 { // 8K
-			sampleRate = 8000
-		} else if msSize <= 32 { // 16K
-			sampleRate = 16000
-		} else if msSize <= 64 { // 32K
-			sampleRate = 32000
-		} else if msSize <= 96 { // 48K
-			sampleRate = 48000
-		}
-
-		track.GetStream().SampleRate = sampleRate
+	var sampleRate = stream.SampleRate
+	msSize := pktDataSize / pktDuration
+	if msSize <= 16 { // 8K
+		sampleRate = 8000
+	} else if msSize <= 32 { // 16K
+		sampleRate = 16000
+	} else if msSize <= 64 { // 32K
+		sampleRate = 32000
+	} else if msSize <= 96 { // 48K
+		sampleRate = 48000
 	}
 
+	stream.SampleRate = sampleRate
 	return true
 }
 
 // calculateG726BitRate 计算g726比特率
-func (s *BaseDemuxer) calculateG726BitRate() bool {
-	var pktDuration int
-	var pktDataSize int
-	for _, pkts := range s.Packets {
-		if pkts.Size() < 1 {
-			continue
-		}
-
-		pkt := pkts.Get(0)
-		if pkt.CodecID != utils.AVCodecIdADPCMG726 {
-			continue
-		}
-
-		pktDuration = int(pkt.GetDuration(1000))
-		pktDataSize = len(pkt.Data)
-		break
-	}
-
+func (s *BaseDemuxer) calculateG726BitRate(stream *AVStream, pkt *AVPacket) bool {
+	pktDuration := int(pkt.GetDuration(1000))
+	pktDataSize := len(pkt.Data)
 	if pktDuration < 1 {
 		return false
 	}
@@ -412,20 +375,26 @@ func (s *BaseDemuxer) calculateG726BitRate() bool {
 		return false
 	}
 
-	for _, track := range s.Tracks.Tracks {
-		if track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
-			continue
-		}
-		track.GetStream().BitRate = bitRate
-	}
-
+	stream.BitRate = bitRate
 	return true
 }
 
 // 回调前的准备工作
 func (s *BaseDemuxer) prepareTracks() {
-	s.calculatePCMFrequency()
-	s.calculateG726BitRate()
+	for _, track := range s.Tracks.Tracks {
+		stream := track.GetStream()
+		if stream.Index >= len(s.Packets) || s.Packets[stream.Index].Size() < 1 {
+			continue
+		}
+
+		// 每个track以各自的第一个packet计算
+		pkt := s.Packets[stream.Index].Get(0)
+		if utils.AVCodecIdPCMS16LE == stream.CodecID {
+			s.calculatePCMFrequency(stream, pkt)
+		} else if utils.AVCodecIdADPCMG726 == stream.CodecID {
+			s.calculateG726BitRate(stream, pkt)
+		}
+	}
 }
 
 func (s *BaseDemuxer) OnProbeComplete() {
-- 
2.43.0


From 19f0190631188007bfa25e9347d68ea2db4b4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:00 +0000
Subject: [PATCH 11/35] fix: input after Close must not dereference the removed
 handler

Frames and probe requests arriving after Close, or after a callback that
closed the session, crashed with a nil pointer dereference.
---
 demuxer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 2ad0910..5de2971 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -441,12 +441,24 @@ func (s *BaseDemuxer) OnProbeComplete() {
 	}
 }
 
+// discardHandler 关闭后的回调, 丢弃所有事件
+type discardHandler struct{}
+
+func (discardHandler) OnNewTrack(Track) {}
+
+func (discardHandler) OnTrackComplete() {}
+
+func (discardHandler) OnTrackNotFind() {}
+
+func (discardHandler) OnPacket(*AVPacket) {}
+
 func (s *BaseDemuxer) SetOnPreprocessPacketHandler(onPreprocessPacket func(packet *AVPacket)) {
 	s.onPreprocessPacket = onPreprocessPacket
 }
 
 func (s *BaseDemuxer) Close() {
-	s.Handler = nil
+	// 可能在回调中关闭, 也可能关闭后继续输入
+	s.Handler = discardHandler{}
 	s.onPreprocessPacket = nil
 }
 
-- 
2.43.0


From b874da29b5d9cad9f81b24ffa2ec6c5bf9bfa28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 12/35] fix: TryCompleteProbe must wait for PCM/G.726 tracks
 without any frame

A track that had not buffered a single frame was not counted as needing
more data, so probing ended with its rate unknown.
---
 demuxer.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index 5de2971..befd026 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -474,14 +474,9 @@ func (s *BaseDemuxer) TryCompleteProbe() {
 			continue
 		}
 
-		for i, packets := range s.Packets {
-			if i == track.GetStream().Index && packets.Size() < 2 {
-				needMoreData = true
-				break
-			}
-		}
-
-		if needMoreData {
+		index := track.GetStream().Index
+		if index >= len(s.Packets) || s.Packets[index].Size() < 2 {
+			needMoreData = true
 			break
 		}
 	}
-- 
2.43.0


From 1e8b4a47ffdd0d1e0fe82b2abb482630f4f0194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:19 +0000
Subject: [PATCH 13/35] fix: a ts stream that repeats its configuration keeps
 its track

Each repetition added another track bound to the same stream; frames then
went to one of them, chosen by map iteration order.
---
 demuxer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index befd026..d5bf9b9 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -78,7 +78,7 @@ func (s *BaseDemuxer) AddTrack(track Track) bool {
 
 func (s *BaseDemuxer) OnNewAudioTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte, config AudioConfig) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || "ts" == s.Name {
+	if s.Tracks.FindTrackWithType(utils.AVMediaTypeAudio) == nil || ("ts" == s.Name && s.findTrackByBufferIndex(bufferIndex) == nil) {
 		track = s.createAudioTrack(bufferIndex, id, timebase, extraData, config)
 	}
 
@@ -133,7 +133,7 @@ func (s *BaseDemuxer) createAudioTrack(bufferIndex int, id utils.AVCodecID, time
 
 func (s *BaseDemuxer) OnNewVideoTrack(bufferIndex int, id utils.AVCodecID, timebase int, extraData []byte) Track {
 	var track Track
-	if s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || "ts" == s.Name {
+	if s.Tracks.FindTrackWithType(utils.AVMediaTypeVideo) == nil || ("ts" == s.Name && s.findTrackByBufferIndex(bufferIndex) == nil) {
 		track = s.createVideoTrack(bufferIndex, id, timebase, extraData)
 	}
 
-- 
2.43.0


From 13a9683dcc8eff156dc17d363c3d9b803b41ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:23 +0000
Subject: [PATCH 14/35] fix: M4VCExtraDataToAnnexB on a truncated record

A parameter set longer than the record panicked with a slice out of range.
---
 avc/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..785a52a 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -283,9 +283,13 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 			return nil, err
 		} else if err = writer.Write(StartCode4); err != nil {
 			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
+		}
+
+		var unit []byte
+		unit, err = reader.ReadBytes(int(size))
+		if err != nil {
 			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
+		} else if err = writer.Write(unit); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 2a23d51442efe8612693944de11721952355e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 15/35] fix: M4VCExtraDataToAnnexB dropped the PPS of a record
 with several SPS

---
 avc/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/avc/util.go b/avc/util.go
index 785a52a..949c012 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -293,8 +293,13 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 			return nil, err
 		}
 
+		if unitNb != 0 {
+			continue
+		}
+
+		// 所有sps读取完毕, 继续读取pps
 		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
+		if reader.ReadableBytes() > 2 && spsDone == 1 {
 			unitNb, _ = reader.ReadUint8()
 		}
 	}
-- 
2.43.0


From 0f2e4640a63f8a05ac6eabdbeebbd4f269d991cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:31 +0000
Subject: [PATCH 16/35] fix: truncated AAC configuration and ADTS headers must
 be refused

ParseMpeg4AudioConfig and ReadADtsFixedHeader indexed past the end of a
short input.
---
 utils/aac_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..288265d 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -217,6 +217,10 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
+
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
@@ -245,6 +249,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 }
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	//audio specific config
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
-- 
2.43.0


From 550a7d23a61df71c018e1b73467624f2dd0880cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 17/35] fix: channel count of an AAC track announced from an
 ADTS header

The channel configuration was taken for the channel count; configuration
7 means 8 channels.
---
 video_stream.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..09ecce1 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,16 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
-		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
+		// 声道配置7对应8个声道
+		config, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		}
 
 		return extraData, skip, AudioConfig{
-			SampleRate:    rate,
+			SampleRate:    config.SampleRate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      config.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From 320a893d6469ef7e2d9896e87292ca71ac83a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:37 +0000
Subject: [PATCH 18/35] fix: a new packet must equal a recycled one

The packaging of an audio packet was 0 or PacketTypeNONE depending on
whether its object came from the pool.
---
 av_packet.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/av_packet.go b/av_packet.go
index e0373e9..76cb581 100644
--- a/av_packet.go
+++ b/av_packet.go
@@ -29,7 +29,12 @@ const (
 var (
 	PacketPool = sync.Pool{
 		New: func() any {
-			return &AVPacket{}
+			// 与FreePacket重置后的状态一致
+			return &AVPacket{
+				PacketType: PacketTypeNONE,
+				MediaType:  utils.AVMediaTypeUnknown,
+				CodecID:    utils.AVCodecIdNONE,
+			}
 		},
 	}
 )
-- 
2.43.0


From 98a86d063f68cf8404fdc5a29bcb3c0ca3da1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:41 +0000
Subject: [PATCH 19/35] fix: NAL unit helpers on frames shorter than a start
 code

SplitNalU, RemoveStartCode and ParseExtraDataFromKeyNALU indexed past the
end of truncated frames and of empty NAL units.
---
 avc/util.go  | 13 +++++++++++--
 hevc/util.go |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 949c012..3cc49c6 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -308,6 +308,11 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 }
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
+	// 不足一个start code
+	if len(data) < 3 {
+		return
+	}
+
 	var offset int
 	// +3查找第二个nalu
 	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
@@ -321,11 +326,11 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
+	if len(data) < 3 || data[0] != 0 || data[1] != 0 {
 		return data
 	} else if data[2] == 0x1 {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if len(data) > 3 && data[2] == 0x0 && data[3] == 0x1 {
 		return data[4:]
 	}
 
@@ -339,6 +344,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		if len(noStartCodeNALU) < 1 {
+			return
+		}
+
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..bc7da1d 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		if len(noStartCodeNALU) < 1 {
+			return
+		}
+
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From 6aa3173b403232fb06e46fb7bee4bd8b9d7efeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 20/35] fix: Marshal of a configuration record with a truncated
 parameter set

It panicked with an index out of range instead of returning an error.
---
 avc/mp4.go  | 4 ++++
 hevc/mp4.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..d12db2c 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -84,6 +84,10 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		}
 	}
 
+	if len(noStartCodeSps) < 4 {
+		return nil, fmt.Errorf("invalid sps")
+	}
+
 	bytes[0] = 1
 	bytes[1] = noStartCodeSps[1]
 	bytes[2] = noStartCodeSps[2]
diff --git a/hevc/mp4.go b/hevc/mp4.go
index fca11c2..dfe7ea1 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -94,6 +94,10 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 
 	write := func(data [][]byte) error {
 		noStartCodeData := avc.RemoveStartCode(data[0])
+		if len(noStartCodeData) < 1 {
+			return fmt.Errorf("invalid parameter set")
+		}
+
 		if err := writer.WriteUint8((noStartCodeData[0] >> 1) & 0x3F); err != nil {
 			return err
 		}
-- 
2.43.0


From 3cc4f1994051cfcc3fde46d50a5e13a5ddcd6ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 21/35] fix: configuration records larger than 1024 bytes

Marshal and ExtraDataToAnnexB wrote into a fixed 1024 byte buffer and
failed when the parameter sets did not fit.
---
 avc/mp4.go  | 13 +++++++++++--
 hevc/mp4.go | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index d12db2c..ac5ae49 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -47,7 +47,15 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 		return nil, fmt.Errorf("pps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	// 固定头+sps/pps数量, 每个参数集2字节长度
+	size := 7
+	for _, list := range [][][]byte{spsList, ppsList} {
+		for _, unit := range list {
+			size += 2 + len(unit)
+		}
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
 		return nil, err
@@ -180,7 +188,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// 2字节长度替换为4字节start code
+	bytes := make([]byte, len(data)*2)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.SPSList {
diff --git a/hevc/mp4.go b/hevc/mp4.go
index dfe7ea1..2e94c51 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -83,7 +83,15 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 		return nil, fmt.Errorf("vps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	// 固定头+3个数组头, 每个参数集2字节长度
+	size := 23 + 3*3
+	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		for _, unit := range list {
+			size += 2 + len(unit)
+		}
+	}
+
+	bytes := make([]byte, size)
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
@@ -218,7 +226,8 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	// 2字节长度替换为4字节start code
+	bytes := make([]byte, len(data)*2)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.VPSList {
-- 
2.43.0


From b1170822ab8db051e9c8d022fc8cc9f19a8db5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:27 +0000
Subject: [PATCH 22/35] fix: AnnexB2AVCC must keep leading zero bytes and drop
 empty NAL units

Zero bytes at the start of a NAL unit (e.g. the header of an HEVC TRAIL_N
slice) were removed, and an empty NAL unit became part of the next one.
---
 avc/util.go | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index 3cc49c6..b71df2d 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -190,14 +190,6 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 	}
 
 	for nalStart < length {
-		// 跳过开头空包(连续0000000100000001)
-		for nalStart < length && annexB[nalStart] == 0 {
-			nalStart++
-		}
-		if nalStart >= length {
-			break
-		}
-
 		nalEnd, n := FindStartCode(annexB[nalStart:])
 		// 最后一个nalu
 		if nalEnd < 0 {
@@ -205,17 +197,15 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 			n = 0
 		}
 
-		nalSize := nalEnd - n
-		// 空包, 保存前一个nalu(1个字节header)
-		if nalSize == 0 {
-			nalSize++
-		}
+		// 跳过空包(连续0000000100000001)
+		if nalSize := nalEnd - n; nalSize > 0 {
+			binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
+			size += 4
 
-		binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
-		size += 4
+			copy(dst[size:], annexB[nalStart:nalStart+nalSize])
+			size += nalSize
+		}
 
-		copy(dst[size:], annexB[nalStart:nalStart+nalSize])
-		size += nalSize
 		nalStart += nalEnd
 	}
 
-- 
2.43.0


From 07ce2e78559d9002bfe7aa540851bb60282f0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 23/35] fix: size of the buffer a packet is converted into

The margin of 256 bytes was too small for packets with many NAL units:
the conversion panicked or lost bytes.
---
 packet_utils.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packet_utils.go b/packet_utils.go
index 310a976..0e500fe 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -47,7 +47,12 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
 		}
 
+		// hevc的nalu长度可能少于4个字节, 转换后大小最多翻倍
 		dstSize := extraDataSize + len(pkt.Data) + 256
+		if utils.AVCodecIdH265 == pkt.CodecID {
+			dstSize += len(pkt.Data)
+		}
+
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
@@ -81,7 +86,8 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
 		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		// 每个nalu至少占用4个字节(3字节start code+1字节header), 转换后最多增加1个字节
+		dstSize := len(pkt.Data) + len(pkt.Data)/4 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From 58035ec00393993c021b0aee1cc99309b4582d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:34 +0000
Subject: [PATCH 24/35] fix: converting a damaged packet must not crash

A damaged HEVC packet, a truncated key frame and a stream without codec
parameters panicked; convert what is intact, as for H.264.
---
 hevc/util.go    |  4 ++--
 packet_utils.go | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/hevc/util.go b/hevc/util.go
index bc7da1d..2293b7b 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -43,7 +43,7 @@ func Mp4ToAnnexB(dst []byte, data, extra []byte, lengthSize int) (int, error) {
 
 	for index < length {
 		if length-index < lengthSize {
-			return -1, fmt.Errorf("invalid data")
+			return n, fmt.Errorf("invalid data")
 		}
 
 		var nalUnitSize int
@@ -57,7 +57,7 @@ func Mp4ToAnnexB(dst []byte, data, extra []byte, lengthSize int) (int, error) {
 		}
 
 		if nalUnitSize < 2 || nalUnitSize > length-index {
-			return -1, fmt.Errorf("invalid data")
+			return n, fmt.Errorf("invalid data")
 		}
 
 		nalUnitType = int(data[index]>>1) & 0x3F
diff --git a/packet_utils.go b/packet_utils.go
index 0e500fe..62b3df6 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -18,7 +18,8 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			extraNALU, nalu := avc.RemoveStartCode(extraData), avc.RemoveStartCode(pkt.Data)
+			if len(extraNALU) > 0 && (len(nalu) == 0 || extraNALU[0] != nalu[0]) {
 				size := len(extraData) + len(pkt.Data)
 				var data []byte
 				if pkt.OnBufferAlloc != nil {
@@ -64,14 +65,22 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
-			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
+			lengthSize := 4
+			if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok {
+				lengthSize = int(codecData.Record.LengthSizeMinusOne)
+			}
+
+			// 数据损坏, 保留已经转换的nalu
+			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
-				panic(err)
+				println(err.Error())
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+		if extraDataSize > 0 {
+			copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
+		}
+
 		n += extraDataSize
 		pkt.dataAnnexB = bytes[:n]
 	}
-- 
2.43.0


From 92d2e6a3abc97ab1d67fddaae92445bb7ce497e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:57 +0000
Subject: [PATCH 25/35] fix: bit reader mishandles empty reads and a final byte
 returned with EOF

---
 bufio/golomb_reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..be0c110 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -12,7 +12,8 @@ type GolombBitReader struct {
 
 func (self *GolombBitReader) ReadBit() (res uint, err error) {
 	if self.left == 0 {
-		if _, err = self.R.Read(self.buf[:]); err != nil {
+		// Read可能返回0字节, 或者同时返回数据和error
+		if _, err = io.ReadFull(self.R, self.buf[:]); err != nil {
 			return
 		}
 		self.left = 8
-- 
2.43.0


From dbf7e34e2bd3f9198fbdb16770290d6454728030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:01 +0000
Subject: [PATCH 26/35] fix: negative signed Exp-Golomb values are decoded with
 the wrong sign

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index be0c110..7299956 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -84,7 +84,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 96189629432e26ae85b91d7a08fb2becfc68daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:05 +0000
Subject: [PATCH 27/35] fix: random strings and integers repeat within one
 clock tick

---
 utils/random_util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/random_util.go b/utils/random_util.go
index 1d47be8..dd621af 100644
--- a/utils/random_util.go
+++ b/utils/random_util.go
@@ -5,10 +5,13 @@ import (
 	"time"
 )
 
+func init() {
+	rand.Seed(time.Now().UnixNano())
+}
+
 const letterBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
 func RandStringBytes(n int) string {
-	rand.Seed(time.Now().UnixNano())
 	b := make([]byte, n)
 	for i := range b {
 		b[i] = letterBytes[rand.Intn(len(letterBytes))]
@@ -23,6 +26,5 @@ func RandomIntInRange(min, max int) int {
 		panic("min should not be greater than max")
 	}
 
-	rand.Seed(time.Now().UnixNano())
 	return rand.Intn(max-min+1) + min
 }
-- 
2.43.0


From 0af40d006d9905cce8af4c5a1502240e83b6290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:07 +0000
Subject: [PATCH 28/35] fix: RandomIntInRange panics when the range does not
 fit in an int

---
 utils/random_util.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utils/random_util.go b/utils/random_util.go
index dd621af..72166c1 100644
--- a/utils/random_util.go
+++ b/utils/random_util.go
@@ -26,5 +26,15 @@ func RandomIntInRange(min, max int) int {
 		panic("min should not be greater than max")
 	}
 
-	return rand.Intn(max-min+1) + min
+	n := max - min + 1
+	if n > 0 {
+		return rand.Intn(n) + min
+	}
+
+	// 范围超出int的最大值
+	for {
+		if v := int(rand.Uint64()); v >= min && v <= max {
+			return v
+		}
+	}
 }
-- 
2.43.0


From c49cd3e1761565a34692fe9ab936eec8cacebe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:21 +0000
Subject: [PATCH 29/35] fix: elementary stream dump keeps old file content and
 is unreadable for its owner

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index e374151..7ffdb92 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From b27c72d468afb999c5e0cbd188a1fa8290312845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:01 +0000
Subject: [PATCH 30/35] fix: AAC configuration with an explicit sampling
 frequency announces -1 Hz

---
 utils/aac_util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 288265d..a7db9ca 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -262,6 +262,16 @@ func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
 	config.SamplingIndex = int((data[0] & 7 << 1) | data[1]>>7)
 	config.SampleRate = audioSamplingRates[(config.SamplingIndex)]
 	config.ChanConfig = int(data[1] >> 3 & 0xF)
+	if config.SamplingIndex == 0xF {
+		// 采样率由后续的24位指定
+		if len(data) < 5 {
+			return nil, fmt.Errorf("need more data")
+		}
+
+		config.SampleRate = int(data[1]&0x7F)<<17 | int(data[2])<<9 | int(data[3])<<1 | int(data[4]>>7)
+		config.ChanConfig = int(data[4] >> 3 & 0xF)
+	}
+
 	if config.ChanConfig >= len(mpeg4AudioChannels) {
 		return nil, fmt.Errorf("invalid data")
 	}
-- 
2.43.0


From e9dc47c8c5e1bdc9f25f8726c2084922bd065a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 31/35] fix: cropped size of interlaced and non-4:2:0 H.264
 pictures is wrong

---
 avc/sps.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..ca55edf 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -54,12 +54,13 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	// 不包含chroma_format_idc的profile, 默认4:2:0
+	var chroma_format_idc uint = 1
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
 		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
@@ -214,8 +215,17 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	// 裁剪单位取决于色度采样格式和是否场编码
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if chroma_format_idc == 1 || chroma_format_idc == 2 {
+		cropUnitX = 2
+	}
+	if chroma_format_idc == 1 {
+		cropUnitY *= 2
+	}
+
+	s.Width = int((s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From 9eb94eacaebf367eb20ac32d05c8dd7af9d39572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 32/35] fix: H.264 SPS is parsed with its emulation prevention
 bytes

---
 avc/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index ca55edf..bc19d7b 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -27,7 +27,7 @@ type SPS struct {
 }
 
 func ParseSPS(data []byte) (s SPS, err error) {
-	data = RemoveStartCode(data)
+	data = bytes.ReplaceAll(RemoveStartCode(data), []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0}) // 去除防竞争字节
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
-- 
2.43.0


From ebcd516a196bc81df4c4edd0b04b75d42e29bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 33/35] fix: H.264 SPS of 4:4:4 pictures has 12 scaling lists

---
 avc/sps.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index bc19d7b..d091605 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -91,7 +91,11 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			scaling_list_count := 8
+			if chroma_format_idc == 3 {
+				scaling_list_count = 12
+			}
+			for i := 0; i < scaling_list_count; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From 02fc876cd1b4fb4a18d2c9c8ae5afbbbf74835c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:56 +0000
Subject: [PATCH 34/35] fix: H.265 picture size ignores the conformance window

---
 hevc/sps.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..1343736 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -82,18 +82,24 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
-		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+		// left/right/top/bottom
+		var offsets [4]uint
+		for i := range offsets {
+			if offsets[i], err = br.ReadExponentialGolombCode(); err != nil {
+				return
+			}
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+
+		// 裁剪单位取决于色度采样格式
+		subWidth, subHeight := uint(1), uint(1)
+		if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+			subWidth = 2
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
-			return
+		if ctx.chromaFormat == 1 {
+			subHeight = 2
 		}
+		ctx.Width -= int((offsets[0] + offsets[1]) * subWidth)
+		ctx.Height -= int((offsets[2] + offsets[3]) * subHeight)
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From 202b9e97bc14cc69d01a855209434001f47b0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 35/35] fix: honour the NAL unit length size an H.264
 configuration record declares

Length-prefixed H.264 packets were always read with 4-byte lengths, so the
packets of a stream whose record declares 1- or 2-byte lengths came out of the
start-code conversion empty or garbled. Descriptions built from parameter sets
now state the 4-byte lengths their records declare.
---
 avc/util.go        | 13 +++++++++++--
 codec_paraments.go |  4 ++++
 packet_utils.go    | 20 ++++++++++++--------
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index b71df2d..a6ef08c 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -145,11 +145,20 @@ func copyNalU(writer bufio.BytesWriter, data []byte, outSize int, append bool) i
 }
 
 func AVCC2AnnexB(dst []byte, avcc []byte, extra []byte) int {
+	return AVCC2AnnexBWithLengthSize(dst, avcc, extra, 4)
+}
+
+// AVCC2AnnexBWithLengthSize lengthSize为AVCDecoderConfigurationRecord声明的nalu长度字节数
+func AVCC2AnnexBWithLengthSize(dst []byte, avcc []byte, extra []byte, lengthSize int) int {
 	length := len(avcc)
 	outSize, spsSeen, ppsSeen := 0, false, false
 
-	for index := 4; index < length; index += 4 {
-		size := int(binary.BigEndian.Uint32(avcc[index-4:]))
+	for index := lengthSize; index < length; index += lengthSize {
+		size := 0
+		for _, b := range avcc[index-lengthSize : index] {
+			size = size<<8 | int(b)
+		}
+
 		if size == 0 || length-index < size {
 			return outSize
 		}
diff --git a/codec_paraments.go b/codec_paraments.go
index 1ec9df4..617f458 100644
--- a/codec_paraments.go
+++ b/codec_paraments.go
@@ -160,6 +160,8 @@ func NewAVCCodecData(sps, pps []byte) (CodecData, error) {
 	}
 
 	recordInfo := avc.AVCDecoderConfigurationRecord{
+		LengthSizeMinusOne: 3,
+
 		SPSList: make([][]byte, 1),
 		PPSList: make([][]byte, 1),
 	}
@@ -185,6 +187,8 @@ func NewHEVCCodecData(vps, sps, pps []byte) (CodecData, error) {
 	}
 
 	recordInfo := hevc.HEVCDecoderConfigurationRecord{
+		LengthSizeMinusOne: 4,
+
 		VPSList: make([][]byte, 1),
 		SPSList: make([][]byte, 1),
 		PPSList: make([][]byte, 1),
diff --git a/packet_utils.go b/packet_utils.go
index 62b3df6..a675a3d 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -48,9 +48,18 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
 		}
 
-		// hevc的nalu长度可能少于4个字节, 转换后大小最多翻倍
+		// 以解码配置记录声明的nalu长度字节数为准
+		lengthSize := 4
+		switch codecData := stream.CodecParameters.(type) {
+		case *AVCCodecData:
+			lengthSize = int(codecData.Record.LengthSizeMinusOne) + 1
+		case *HEVCCodecData:
+			lengthSize = int(codecData.Record.LengthSizeMinusOne)
+		}
+
+		// nalu长度可能少于4个字节, 转换后大小最多翻倍
 		dstSize := extraDataSize + len(pkt.Data) + 256
-		if utils.AVCodecIdH265 == pkt.CodecID {
+		if lengthSize < 4 {
 			dstSize += len(pkt.Data)
 		}
 
@@ -61,15 +70,10 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		}
 
 		if utils.AVCodecIdH264 == pkt.CodecID {
-			n = avc.AVCC2AnnexB(bytes[extraDataSize:], pkt.Data, nil)
+			n = avc.AVCC2AnnexBWithLengthSize(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := 4
-			if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok {
-				lengthSize = int(codecData.Record.LengthSizeMinusOne)
-			}
-
 			// 数据损坏, 保留已经转换的nalu
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, lengthSize)
 			if err != nil {
-- 
2.43.0

