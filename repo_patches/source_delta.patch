From 1491b8de76e8a3a2d3a2b2b4e27ec6bb32a37386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 01/36] fix: crash when a level lacks a lump that has to be
 created

The name of the lump was sliced to 8 bytes regardless of its length, which
panics for every name shorter than 8 characters.
---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 4b59b29..f94d0d0 100644
--- a/wad.go
+++ b/wad.go
@@ -254,7 +254,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From 2b4f808fcd4884446ab5caba3e5657bf165242df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 02/36] fix: zero-filled reject panics or picks a wrong size
 when lumps were added or removed

The size was stored under the level's index in the input directory but looked
up under its index in the output directory.
---
 level.go | 4 ++--
 wad.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..f888c31 100755
--- a/level.go
+++ b/level.go
@@ -112,9 +112,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
-					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
+					panic("Rejectsize was not stored for key = <level marker lump id>")
 				}
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
diff --git a/wad.go b/wad.go
index f94d0d0..9d3cc06 100644
--- a/wad.go
+++ b/wad.go
@@ -442,7 +442,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From 98511a96b450ab52ed45ee98ab3cfbe55b457d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 03/36] fix: NOPROCESS reads wrong lumps of the input wad when
 its directory is reordered

cloneSchedule shared the level's own lumps with the original, so indexes meant
for the output directory ended up in the schedule of the pinned input wad.
---
 wad.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wad.go b/wad.go
index 9d3cc06..7310ddf 100644
--- a/wad.go
+++ b/wad.go
@@ -513,6 +513,14 @@ func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	rootSch := newSch
 	for sch != nil {
 		*newSch = *sch
+		if sch.Level != nil {
+			// level lumps get their indexes updated, original must be unaffected
+			newSch.Level = make([]*ScheduledLump, len(sch.Level), cap(sch.Level))
+			for i, subEntry := range sch.Level {
+				newSubEntry := *subEntry
+				newSch.Level[i] = &newSubEntry
+			}
+		}
 		if sch.Next != nil {
 			newSch.Next = &ScheduledLump{}
 			newSch = newSch.Next
-- 
2.43.0


From 1b38cd2aa62ae5111842be5f53709e6dbb1aaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 04/36] fix: SCRIPTS and duplicate level lumps corrupt the
 output

Level lumps without a place in the output (SCRIPTS, extra copies of a lump)
were left in the schedule with index 0, so lump 0 was written again from a
wrong offset, and SCRIPTS and duplicate BEHAVIOR entries were not subtracted
from the directory size, shifting everything that follows. SCRIPTS now has a
place after BEHAVIOR, and duplicates leave the schedule.
---
 wad.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/wad.go b/wad.go
index 7310ddf..2b0c7d2 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
@@ -201,7 +201,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 			// Now let's conform lump order and existence to the specification
 			valid := true
 			lvlName := string(ByteSliceBeforeTerm(le[oldMainEntryIdx].Name[:]))
-			pendingDel := 0
 			for key, value := range validities[curLevel].requisites {
 				if value == 0 {
 					Log.Error("Level %s is not valid: missing lump %s\n", lvlName,
@@ -210,14 +209,10 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 				} else if value > 1 {
 					Log.Error("Level %s has one or more duplicate of lump %s - only one instance of this lump will remain\n",
 						lvlName, LUMP_MUSTEXIST[key])
-					// Some entries are not copied (ignored) to the output
-					pendingDel += value - 1
 				}
 			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
-				nSize -= pendingDel
-				deltaCur -= pendingDel
 				// Level is valid. Create missing creatable lump entries,
 				// but delete duplicates
 				for key, value := range validities[curLevel].creatable {
@@ -237,10 +232,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 								DirIndex: (-1) * (len(scheduleEntry.Level) - oldLevelLen + 1),
 								Level:    nil,
 							})
-					} else if value > 1 {
-						// Some entries are not copied (ignored) to the output
-						nSize -= value - 1
-						deltaCur -= value - 1
 					}
 				}
 
@@ -264,9 +255,20 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						curOut++
 					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
 				}
+				kept := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					newIdx, exists := oldIdxsToNew[subEntry.DirIndex]
+					if !exists {
+						// Duplicates are not copied (ignored) to the output
+						continue
+					}
+					subEntry.DirIndex = newIdx
+					kept = append(kept, subEntry)
 				}
+				pendingDel := len(scheduleEntry.Level) - len(kept)
+				nSize -= pendingDel
+				deltaCur -= pendingDel
+				scheduleEntry.Level = kept
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
-- 
2.43.0


From 49b3b548aaab22cac01bceb45d34530f2fcc80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 05/36] fix: multi-tree crashes when no linedef qualifies as
 root

With m=2 (two-sided roots) and a map without two-sided lines there was no root
candidate, no worker and a nil best tree. Fall back to trying all linedefs.
---
 multitree_plain.go | 6 ++++++
 picknode.go        | 2 +-
 znodegen.go        | 8 +++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/multitree_plain.go b/multitree_plain.go
index ce1bc53..53ac7ca 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -134,6 +134,12 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 		// not a good API, admittedly
 		rootSegCandidates = MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 {
+		// Map has no linedefs of the requested kind (one-sided or two-sided)
+		Log.Printf("Multi-tree: there are no linedefs of the kind requested for root, will try all linedefs instead.\n")
+		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+	}
 	// whether vanilla nodes format is required or preferred, AND we should be
 	// choosing best tree among specifically vanilla whenever any vanilla-compatible
 	// tree exists
diff --git a/picknode.go b/picknode.go
index 60b6fcf..b640209 100755
--- a/picknode.go
+++ b/picknode.go
@@ -1989,7 +1989,7 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 		if len(w.zenScores) == 0 { // hopefully never happens
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
 			w.parts = make([]*NodeSeg, 1)
-			w.parts[1] = best
+			w.parts[0] = best
 			if best == nil {
 				Log.Merge(w.mlog, "") // ensure user sees the above error before panic
 				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..afd6c1a 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3473,7 +3473,7 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 		if len(w.zenScores) == 0 {
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
 			w.parts = make([]*ZExt_NodeSeg, 1)
-			w.parts[1] = best
+			w.parts[0] = best
 			if best == nil {
 				Log.Merge(w.mlog, "")
 				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
@@ -4282,6 +4282,12 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 {
+
+		Log.Printf("Multi-tree: there are no linedefs of the kind requested for root, will try all linedefs instead.\n")
+		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+	}
 
 	vanillaBias := w.nodeType == NODETYPE_VANILLA && !config.Ableist
 
-- 
2.43.0


From b5455a14382069673ce66122648a4899c4c8a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 06/36] fix: directory misplaced when only few zeroes are
 needed for zero-filled reject

---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..e78fec4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From 460de8520bea5000a71b7aa197654a348385dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 07/36] fix: scroller dummy linedefs mixed up with others when
 some are removed

---
 level.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/level.go b/level.go
index f888c31..bcaaca9 100755
--- a/level.go
+++ b/level.go
@@ -27,6 +27,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"sort"
 )
 
 const BRANCH_NODES = 1
@@ -860,6 +861,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	ret := make([]Linedef, len(linedefs))
 
 	// Remove linedefs first, via copying only those that are not removed
+	// (groups may interleave, so what is to be removed must be put in order)
+	sort.Ints(linedefsToCull)
 	copyStart := 0
 	removed := 0
 	for i := 0; i < len(linedefsToCull); i++ {
@@ -874,6 +877,7 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		copy(ret[copyStart-removed:], linedefs[copyStart:len(linedefs)])
 	}
 	ret = ret[:len(linedefs)-removed]
+	dummies = dummies[:len(ret)]
 
 	// Locate all remaining linedefs, add them to dummies. Remember that
 	// some may have changed index, so compute new index
-- 
2.43.0


From 4c657c921c883473101fbe7b5e773ae241aa60ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 08/36] fix: crash measuring level detail when linedefs without
 segs lie outside the rest

---
 node_intro.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/node_intro.go b/node_intro.go
index 8b46ac3..3649e4e 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -118,9 +118,24 @@ func MinorCmpFuncFromOption(userOption int) MinorIsBetterFunc {
 // which means it is not advised to be used for vanilla maps unless absolutely
 // necessary
 func IsTooDetailed(lines AbstractLines, linesToIgnore []bool, bounds *NodeBounds) bool {
+	// Linedefs that got no segs can lie outside of what the segs cover
+	lb := NodeBoundsToLevelBounds(bounds)
+	all := RecomputeBounds(lines, linesToIgnore)
+	if all.Xmin < lb.Xmin {
+		lb.Xmin = all.Xmin
+	}
+	if all.Ymin < lb.Ymin {
+		lb.Ymin = all.Ymin
+	}
+	if all.Xmax > lb.Xmax {
+		lb.Xmax = all.Xmax
+	}
+	if all.Ymax > lb.Ymax {
+		lb.Ymax = all.Ymax
+	}
 	bmi := &BlockmapInput{
 		lines:           lines,
-		bounds:          *NodeBoundsToLevelBounds(bounds),
+		bounds:          *lb,
 		XOffset:         0,
 		YOffset:         0,
 		useZeroHeader:   false,
-- 
2.43.0


From e29d46d89d6958af7c2a8678818fb9112380855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 09/36] fix: index out of range trying blockmap offsets on
 levels with over 65536 blocks

---
 blockmapgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..bf800e9 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -589,7 +589,8 @@ func BMBeeMaxSize(b LevelBounds) int {
 	ymax := int(b.Ymax)
 	xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 	yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-	return int((xblocks + 1) * (yblocks + 1))
+	// the value can be well over 65536
+	return (int(xblocks) + 1) * (int(yblocks) + 1)
 }
 
 func StatBlockmap(bm *Blockmap) {
-- 
2.43.0


From c7033ffc180fba80623d4bbc89978d17b65b9bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 10/36] fix: blockmap offsets tried depend on the number of
 threads when limited by map bounds

---
 blockmapgen.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/blockmapgen.go b/blockmapgen.go
index bf800e9..1361029 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -805,17 +805,20 @@ func ChooseModeWithCutoff(mode int, offsetXMax, offsetYMax, offsetStep *int16,
 		}
 	}
 	didCut := false
+	// The maximums must remain divisible by step: bees subtract offsetXMax when
+	// moving to the next Y offset, and all must stay on the same grid of offsets
+	// regardless of how many of them there are
 	if *offsetXMax > cutOffX+1 {
-		*offsetXMax = cutOffX + 1
+		*offsetXMax = (cutOffX / *offsetStep + 1) * *offsetStep
 		didCut = true
 	}
 	if *offsetYMax > cutOffY+1 {
-		*offsetYMax = cutOffY + 1
+		*offsetYMax = (cutOffY / *offsetStep + 1) * *offsetStep
 		didCut = true
 	}
 	if didCut {
 		Log.Printf("Map bounds are such they would overflow with certain offsets. Limiting max X offset to %d, max Y offset to %d.\n",
-			*offsetXMax-1, *offsetYMax-1)
+			*offsetXMax-*offsetStep, *offsetYMax-*offsetStep)
 	}
 	// Currently the cutoff should work, but very suboptimally in some cases...
 	return mode
-- 
2.43.0


From 531652e3f7e2b457c6ec0601125975709c1ebd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 11/36] fix: blockmap generator never ends when conditional
 compression satisfies the endgoal early

---
 blockmapgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index 1361029..fa92712 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -128,6 +128,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			// fitting blockmap might have already been found
 			Blockmap_ReportTime(start, subsetMode)
 			where <- data
+			return
 		}
 	} // else must be that one fixed offset mode
 
@@ -177,6 +178,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			if data != nil {
 				Blockmap_ReportTime(start, subsetMode)
 				where <- data
+				return
 			}
 			bm := CreateBlockmap(&input)
 			if subsetMode != BSUBSET_NOCOMPRESSION {
-- 
2.43.0


From a0fe5e33d330a730aa01cc16dcdb4168c48f6ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 12/36] fix: levels with empty mandatory lumps produce garbage
 directory entries or crash

---
 wad.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/wad.go b/wad.go
index 2b0c7d2..ddc5f73 100644
--- a/wad.go
+++ b/wad.go
@@ -211,6 +211,12 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						lvlName, LUMP_MUSTEXIST[key])
 				}
 			}
+			if emptyLump := FindEmptyMandatoryLump(le, validities[curLevel].currentOrder,
+				scheduleEntry.LevelFormat); valid && emptyLump != "" {
+				Log.Error("Level %s is not valid: lump %s is empty\n", lvlName,
+					emptyLump)
+				valid = false
+			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
 				// Level is valid. Create missing creatable lump entries,
@@ -300,6 +306,32 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 	return leOut
 }
 
+// FindEmptyMandatoryLump returns the name of the lump that lacks even a single
+// entry when at least one is required to build anything for the level. THINGS
+// are allowed to be empty
+func FindEmptyMandatoryLump(le []LumpEntry, currentOrder []int, levelFormat int) string {
+	for key, value := range currentOrder {
+		minSize := uint32(0)
+		switch LUMP_SORT_ORDER[key] {
+		case "LINEDEFS":
+			minSize = DOOM_LINEDEF_SIZE
+			if levelFormat == FORMAT_HEXEN {
+				minSize = HEXEN_LINEDEF_SIZE
+			}
+		case "SIDEDEFS":
+			minSize = DOOM_SIDEDEF_SIZE
+		case "VERTEXES":
+			minSize = 4
+		case "SECTORS":
+			minSize = DOOM_SECTOR_SIZE
+		}
+		if value >= 0 && le[value].Size < minSize {
+			return LUMP_SORT_ORDER[key]
+		}
+	}
+	return ""
+}
+
 // LoadWadDirectory parses lumps list, establishes which lumps are level lumps.
 // - isInputWad == true should only be used for a single input wad, on the basis of
 // which output is produced. rejectsize and troll must then be provided.
-- 
2.43.0


From 4f93e174a5b5faf713d2dbe03f7d7ce7e83cf4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 13/36] fix: temporary file and status 0 left behind when the
 run fails

---
 filecontrol.go | 21 ++++++++++++++++-----
 vigilantbsp.go | 17 +++++++++++++----
 wad.go         |  7 ++++---
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index b573f5b..0fdc07e 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -73,6 +73,10 @@ func (fc *FileControl) OpenOutputFile(outputFileName string) (*os.File, string,
 		fc.fout, err = os.OpenFile(outputFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 			os.ModeExclusive|os.ModePerm)
 	}
+	if err != nil {
+		fc.fout = nil
+		fc.tmp = false // there is nothing to delete
+	}
 	fc.outputFileName = outputFileName
 	return fc.fout, outputFileName, err
 }
@@ -92,6 +96,7 @@ func (fc *FileControl) CloseRMBOptionsFile() {
 		return
 	}
 	err := fc.frmb.Close()
+	fc.frmb = nil
 	if err != nil {
 		Log.Error("Couldn't close RMB file '%s': %s\n", fc.rmbFileName, err.Error())
 	}
@@ -137,6 +142,9 @@ func (fc *FileControl) Success() bool {
 	}
 	errFin := fc.fin.Close()
 	errFout := fc.fout.Close()
+	// Must not be closed for the second time if Shutdown needs to clean up
+	fc.fin = nil
+	fc.fout = nil
 	sucReport := fc.CloseReportFile(true)
 	hasError := errFin != nil || errFout != nil || !sucReport
 	if hasError {
@@ -242,11 +250,6 @@ func (fc *FileControl) Shutdown() {
 	fc.CloseReportFile(false)
 
 	if fc.tmp { // Aborting unsuccessful operation when a temp file has been created
-		if errFout != nil {
-			Log.Error("Couldn't delete temporary file '%s' because failed to close it already.\n",
-				fc.outputFileName)
-			return
-		}
 		err := os.Remove(fc.outputFileName)
 		if err != nil {
 			Log.Error("Got error when trying to delete a temporary file '%s': %s\n", fc.outputFileName, err.Error())
@@ -254,6 +257,14 @@ func (fc *FileControl) Shutdown() {
 	}
 }
 
+// Abort cleans up like Shutdown does and terminates the program immediately,
+// reporting failure. Is to be used instead of os.Exit, which doesn't execute
+// deferred functions and hence would leave temporary file behind
+func (fc *FileControl) Abort() {
+	fc.Shutdown()
+	os.Exit(1)
+}
+
 // Loads RMB if it exists. ALLOWED to panic (and thus bring down the program)
 // if:
 // 1. File exists but couldn't be read, because, for example, permissions
diff --git a/vigilantbsp.go b/vigilantbsp.go
index e78fec4..a3fb158 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -59,6 +59,14 @@ func main() {
 	//Log.Verbose(2, "Parsing command line takes %s\n", time.Since(timeStart))
 
 	var err error
+	// Exit status is reported to the system only after everything else that was
+	// deferred had been executed
+	exitStatus := 0
+	defer func() {
+		if exitStatus != 0 {
+			os.Exit(exitStatus)
+		}
+	}()
 	// Initialize wad file name from arguments
 	if config.Profile {
 		f, err := os.Create(config.ProfilePath)
@@ -241,14 +249,14 @@ func main() {
 	err = binary.Write(fout, binary.LittleEndian, wh)
 	if err != nil {
 		Log.Error("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
-		os.Exit(1)
+		mainFileControl.Abort()
 	}
 
 	if zerosToInsert > 0 {
-		WriteNZerosOrFail(fout, zerosToInsert, outFileName)
+		WriteNZerosOrFail(fout, zerosToInsert, outFileName, &mainFileControl)
 	}
 	// skip directory also
-	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName)
+	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName, &mainFileControl)
 	action := ScheduleRoot
 	curPos := uint32(binary.Size(wh)) + zerosToInsert + uint32(binary.Size(le))
 	wriBus := StartWriteBus(fout, le, curPos)
@@ -302,7 +310,8 @@ func main() {
 		}
 		Log.Printf("%s successfully written \n ", trFileName)
 	} else {
-		Log.Printf("I/O error on flushing data / closing files. The data might not have been saved!\n")
+		Log.Error("I/O error on flushing data / closing files. The data might not have been saved!\n")
+		exitStatus = 1
 	}
 	if config.DumpSegsFlag {
 		DebugSaveDumpedSegs(config.SegDumpFile)
diff --git a/wad.go b/wad.go
index ddc5f73..74e87a7 100644
--- a/wad.go
+++ b/wad.go
@@ -102,15 +102,16 @@ func FindValidLevels(root *ScheduledLump) int {
 	return res
 }
 
-func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
+func WriteNZerosOrFail(a io.Writer, n uint32, fname string,
+	fileControl *FileControl) {
 	zb := make([]byte, n, n)
 	written, err := a.Write(zb)
 	if err != nil {
 		Log.Error("An error has occured while trying to write %s: %s\n", fname, err)
-		os.Exit(1)
+		fileControl.Abort()
 	} else if uint32(written) != n {
 		Log.Error("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
-		os.Exit(1)
+		fileControl.Abort()
 	}
 }
 
-- 
2.43.0


From 62cfa7d5eb9af92b9f4e2f80d3d4b5355f0fbb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 14/36] fix: failed writes of the output go unnoticed

---
 lumpwrite.go   | 26 +++++++++++++++++++-------
 vigilantbsp.go | 21 +++++++++++++++++----
 writebus.go    | 18 +++++++++++++-----
 3 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/lumpwrite.go b/lumpwrite.go
index fe02e47..bc6dd20 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -30,9 +30,11 @@ import (
 // as a valid byte array (also already converted to file endianness) ready to be
 // written
 func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
-	lumpIdx int, s string, postfix string) {
+	lumpIdx int, s string, postfix string) error {
 	if data != nil {
-		fout.Write(data)
+		if _, err := fout.Write(data); err != nil {
+			return err
+		}
 	}
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(len(data))
@@ -45,14 +47,17 @@ func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
 			s, postfix, le[lumpIdx].Size, hashSuffix)
 	}
 	*curPos = *curPos + uint32(len(data))
+	return nil
 }
 
 // Write lump from a typed array of structures that represent game data but need
 // conversion before going to file
 func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	binary.Write(fout, binary.LittleEndian, data)
+	if err := binary.Write(fout, binary.LittleEndian, data); err != nil {
+		return err
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -62,13 +67,19 @@ func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen)
+	return nil
 }
 
 func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
-	binary.Write(fout, binary.LittleEndian, data)
+	sigCnt, err := fout.Write(DEEPNODES_SIG[:])
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, data)
+	}
+	if err != nil {
+		return err
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -78,6 +89,7 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen+sigCnt)
+	return nil
 }
 
 // non-threadsafe encode of cryptographic hash, I presume
diff --git a/vigilantbsp.go b/vigilantbsp.go
index a3fb158..e7b4c6b 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -292,13 +292,26 @@ func main() {
 				lvl.DoLevel(le, idx, rejectsize, troll, action, rejectStart,
 					f, wriBus, &mainFileControl)
 			}
-			wriBus.Sync() // make sure all that is to be logged is there before new level is processed
+			// make sure all that is to be logged is there before new level is processed
+			err = wriBus.Sync()
+			if err != nil {
+				Log.Error("An error has occured while trying to write %s: %s\n", outFileName, err)
+				mainFileControl.Abort()
+			}
 		}
 		action = action.Next
 	}
-	wriBus.Shutdown()
-	fout.Seek(int64(wh.DirectoryStart), 0)
-	binary.Write(fout, binary.LittleEndian, le)
+	err = wriBus.Shutdown()
+	if err == nil {
+		_, err = fout.Seek(int64(wh.DirectoryStart), 0)
+	}
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, le)
+	}
+	if err != nil {
+		Log.Error("An error has occured while trying to write %s: %s\n", outFileName, err)
+		mainFileControl.Abort()
+	}
 	suc := mainFileControl.Success()
 	if suc {
 		trFileName := outFileName
diff --git a/writebus.go b/writebus.go
index d9c5317..a5d37d4 100755
--- a/writebus.go
+++ b/writebus.go
@@ -43,6 +43,7 @@ type WriteBus struct {
 	fout   *os.File
 	le     []LumpEntry
 	curPos uint32
+	err    error // the first error encountered when writing
 }
 
 type WriteBusControl struct {
@@ -73,20 +74,23 @@ func StartWriteBus(fout *os.File, le []LumpEntry, curPos uint32) *WriteBusContro
 func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 	chSync chan<- bool) {
 	for req := range ch {
+		if b.err != nil && req.tpeIndex != WRI_TYPE_SYNC {
+			continue // output is already ruined, but senders must not block
+		}
 		switch req.tpeIndex {
 		case WRI_TYPE_BYTES:
 			{
-				WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
+				b.err = WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
 					req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_INTERFACE:
 			{
-				ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
+				b.err = ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_DEEPNODES:
 			{
-				ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
+				b.err = ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_SYNC:
@@ -150,17 +154,21 @@ func (c *WriteBusControl) SendDeepNodesLump(data []DeepNode, lumpIdx int,
 	c.ch <- envl
 }
 
-func (c *WriteBusControl) Shutdown() {
+// Waits until everything is written, returns the error if writing had failed
+func (c *WriteBusControl) Shutdown() error {
 	close(c.ch)
 	<-c.finisher
+	return c.bus.err
 }
 
 // This service call is needed to prevent actions pertaining to the previous
 // level being logged to output after processing of new level is announced
-func (c *WriteBusControl) Sync() {
+// Returns the error if writing had failed
+func (c *WriteBusControl) Sync() error {
 	envl := WriteBusRequest{
 		tpeIndex: WRI_TYPE_SYNC,
 	}
 	c.ch <- envl
 	<-c.sync
+	return c.bus.err
 }
-- 
2.43.0


From 96c6b0b1d3ad6f9dacdac793f472161a47b18817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 15/36] fix: failed reads of the input produce damaged output

---
 level.go       | 21 +++++++--------------
 udmf_level.go  |  3 +--
 vigilantbsp.go |  3 +--
 wad.go         | 28 ++++++++++++++++++++++++++++
 4 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/level.go b/level.go
index bcaaca9..e832838 100755
--- a/level.go
+++ b/level.go
@@ -148,47 +148,40 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 					// lines, etc. when building nodes.
 					cntLinedefs := le[idx].Size / DOOM_LINEDEF_SIZE
 					linedefs = make([]Linedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, linedefs)
+					ReadLumpOrFail(f, &(le[idx]), linedefs, fileControl)
 				} else { // FORMAT_HEXEN
 					cntLinedefs := le[idx].Size / HEXEN_LINEDEF_SIZE
 					hexenLinedefs = make([]HexenLinedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, hexenLinedefs)
+					ReadLumpOrFail(f, &(le[idx]), hexenLinedefs, fileControl)
 				}
 				copyLump = !config.RebuildNodes // !!! linedefs' vertices might be renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("VERTEXES")) {
 				l.VerticesLumpIdx = idx
 				cntVertices := le[idx].Size >> 2
 				vertices = make([]Vertex, cntVertices, cntVertices)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, vertices)
+				ReadLumpOrFail(f, &(le[idx]), vertices, fileControl)
 				// bounds
 				bounds = GetBounds(vertices)
 				copyLump = !config.RebuildNodes // vertices are created and renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("SIDEDEFS")) {
 				cntSidedefs := le[idx].Size / DOOM_SIDEDEF_SIZE
 				sidedefs = make([]Sidedef, cntSidedefs, cntSidedefs)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sidedefs)
+				ReadLumpOrFail(f, &(le[idx]), sidedefs, fileControl)
 				// this is kept intact, for now at least
 			} else if bytes.Equal(bname, []byte("SECTORS")) {
 				cntSectors := le[idx].Size / DOOM_SECTOR_SIZE
 				sectors = make([]Sector, cntSectors, cntSectors)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sectors)
+				ReadLumpOrFail(f, &(le[idx]), sectors, fileControl)
 				// this is kept intact
 			} else if action.LevelFormat == FORMAT_HEXEN && bytes.Equal(bname, []byte("THINGS")) {
 				vrThing := HexenThing{}
 				cntThings := le[idx].Size / uint32(binary.Size(vrThing))
 				hexenThings = make([]HexenThing, cntThings, cntThings)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, hexenThings)
+				ReadLumpOrFail(f, &(le[idx]), hexenThings, fileControl)
 			} // this is kept intact
 			// copy along every entry that is not going to be modified
 			if copyLump {
-				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				tmpBuf := ReadRawLumpOrFail(f, &(le[idx]), fileControl)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/udmf_level.go b/udmf_level.go
index b08ca86..c227b85 100644
--- a/udmf_level.go
+++ b/udmf_level.go
@@ -77,8 +77,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 				// might set copyLump == false
 			}
 			if copyLump {
-				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				tmpBuf := ReadRawLumpOrFail(f, &(le[idx]), fileControl)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/vigilantbsp.go b/vigilantbsp.go
index e7b4c6b..98043b4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -273,8 +273,7 @@ func main() {
 		// they are not getting copied in this part
 		idx := action.DirIndex
 		if le[idx].Size != 0 {
-			tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-			f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			tmpBuf := ReadRawLumpOrFail(f, &(le[idx]), &mainFileControl)
 			wriBus.SendRawLump(tmpBuf, idx, "", "")
 		} else if (idx == 0) && ZeroOffsetFirstLump {
 			// first lump has zero size, if we set zero offset we can steal some bytes
diff --git a/wad.go b/wad.go
index 74e87a7..57f79e8 100644
--- a/wad.go
+++ b/wad.go
@@ -115,6 +115,34 @@ func WriteNZerosOrFail(a io.Writer, n uint32, fname string,
 	}
 }
 
+// ReadRawLumpOrFail returns contents of the lump without conversion. If they
+// can't be read in full, the program is aborted rather than made to produce
+// a wad with damaged lump
+func ReadRawLumpOrFail(f *os.File, entry *LumpEntry, fileControl *FileControl) []byte {
+	ret := make([]byte, entry.Size)
+	_, err := f.ReadAt(ret, int64(entry.FilePos))
+	if err != nil {
+		Log.Error("An error has occured while trying to read lump %s: %s\n",
+			string(ByteSliceBeforeTerm(entry.Name[:])), err)
+		fileControl.Abort()
+	}
+	return ret
+}
+
+// ReadLumpOrFail fills data, which is a slice of structures representing game
+// data, from the beginning of the lump. Same as ReadRawLumpOrFail, aborts the
+// program on error
+func ReadLumpOrFail(f *os.File, entry *LumpEntry, data interface{},
+	fileControl *FileControl) {
+	raw := io.NewSectionReader(f, int64(entry.FilePos), int64(entry.Size))
+	err := binary.Read(raw, binary.LittleEndian, data)
+	if err != nil {
+		Log.Error("An error has occured while trying to read lump %s: %s\n",
+			string(ByteSliceBeforeTerm(entry.Name[:])), err)
+		fileControl.Abort()
+	}
+}
+
 func SetValiditySocket(lumpName string, reference []string, validitySub *[]int,
 	val int, additive bool) {
 	target := -1
-- 
2.43.0


From 9cb5fa0b5fda984d22b6113ef0ff5c3622f7ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 16/36] fix: both original and result lost when overwriting the
 input fails

---
 filecontrol.go | 78 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index 0fdc07e..64b3a29 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
@@ -141,7 +142,15 @@ func (fc *FileControl) Success() bool {
 		Log.Panic("Sanity check failed: descriptor invalid.\n")
 	}
 	errFin := fc.fin.Close()
-	errFout := fc.fout.Close()
+	var errFout error
+	if fc.tmp {
+		// Temporary file must survive a power failure from the moment we start
+		// overwriting the input
+		errFout = fc.fout.Sync()
+	}
+	if errFout2 := fc.fout.Close(); errFout == nil {
+		errFout = errFout2
+	}
 	// Must not be closed for the second time if Shutdown needs to clean up
 	fc.fin = nil
 	fc.fout = nil
@@ -158,16 +167,14 @@ func (fc *FileControl) Success() bool {
 		}
 		return false
 	}
-	success2 := true
-	if fc.tmp {
-		success2 = fc.tempFileReplacesInput()
+	if fc.tmp && !fc.tempFileReplacesInput() {
+		return false
 	}
 	fc.success = true // nothing to clean up on program exit anyway (original file descriptors closed)
-	return success2   // but the criteria to report success to user is different - no errors should have happened
+	return true
 }
 
 func (fc *FileControl) tempFileReplacesInput() bool {
-	success := true
 	// now former output - temp file - is where we read from,
 	// where as former input is the destination file we will overwrite
 	fin, errFin := os.Open(fc.outputFileName)
@@ -176,32 +183,61 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 			errFin.Error())
 		return false
 	}
+	defer fin.Close()
 	fout, errFout := os.OpenFile(fc.inputFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 		os.ModeExclusive|os.ModePerm)
 	if errFout != nil {
-		success = false
 		Log.Error("Couldn't reopen the input file to overwrite it: %s.\n",
 			errFout.Error())
-	} else {
-		_, err := io.Copy(fout, fin)
-		if err != nil {
-			success = false
-			// FUCK Hope the user has backup for this
-			// TODO may be make backup oneself, I dunno
-			Log.Error("Error when overwriting the original file: %s.\n",
-				err.Error())
-		}
-		fout.Close()
+		return false
+	}
+	err := overwriteWad(fout, fin)
+	if errClose := fout.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		// The original is gone, so don't let the temporary file to be deleted
+		fc.tmp = false
+		Log.Error("Error when overwriting the original file: %s. The new wad was preserved as %s\n",
+			err.Error(), fc.outputFileName)
+		return false
 	}
-	fin.Close()
 	// Now delete the temporary file
-	err := os.Remove(fc.outputFileName)
+	fc.tmp = false
+	err = os.Remove(fc.outputFileName)
 	if err != nil {
-		success = false
 		Log.Error("Couldn't delete temporary file after overwriting the original one: %s.\n",
 			err.Error())
+		return false
+	}
+	return true
+}
+
+// overwriteWad copies wad to (just truncated) destination. The header is put in
+// place last, when the rest has reached the disk already - if something happens
+// in the middle, the destination can't be mistaken for a complete wad
+func overwriteWad(fout *os.File, fin *os.File) error {
+	header := make([]byte, binary.Size(WadHeader{}))
+	_, err := io.ReadFull(fin, header)
+	if err == nil {
+		err = fout.Sync()
+	}
+	if err == nil {
+		_, err = fout.Seek(int64(len(header)), 0)
+	}
+	if err == nil {
+		_, err = io.Copy(fout, fin)
+	}
+	if err == nil {
+		err = fout.Sync()
+	}
+	if err == nil {
+		_, err = fout.WriteAt(header, 0)
+	}
+	if err == nil {
+		err = fout.Sync()
 	}
-	return success
+	return err
 }
 
 // Ensures we close all files when program exits. Temporary file is getting
-- 
2.43.0


From 5313618088270502721823cc1510f00d000c3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 17/36] fix: input can be overwritten when output file can't be
 examined

---
 vigilantbsp.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index 98043b4..4fa45d5 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -36,6 +36,7 @@ package main
 
 import (
 	"encoding/binary"
+	"errors"
 	"os"
 	"path/filepath"
 	"runtime/pprof"
@@ -105,6 +106,13 @@ func main() {
 				Log.Error("You cannot specify output file that maps to the same input file (whether via same path and name, or hardlinks, or symlinks)\n")
 				os.Exit(1)
 			}
+		} else if !errors.Is(err1, os.ErrNotExist) && !errors.Is(err2, os.ErrNotExist) {
+			// Both may exist, but it is not known whether they are the same file
+			if err1 == nil {
+				err1 = err2
+			}
+			Log.Error("Couldn't tell input and output files apart: %s\n", err1.Error())
+			os.Exit(1)
 		}
 	}
 
-- 
2.43.0


From e1da36d206b70610df8c90d48c1ceb1db86a93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 18/36] fix: report claims completeness after failed writes

---
 filecontrol.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index 64b3a29..b2a7410 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -37,7 +37,8 @@ type FileControl struct {
 	fin               *os.File
 	fout              *os.File
 	frmb              *os.File
-	freport           *os.File
+	freport           *ReportFile
+	reportErr         error // report file couldn't be created
 	fpin              *os.File
 	inputFileName     string
 	outputFileName    string
@@ -48,6 +49,22 @@ type FileControl struct {
 	pinnedExternalWad *PinnedWad // for RMB option NOPROCESS
 }
 
+// ReportFile remembers if it couldn't be written, so that report which lacks
+// entries is not claimed to be complete when it is closed
+type ReportFile struct {
+	*os.File
+	err error
+}
+
+func (rf *ReportFile) Write(b []byte) (int, error) {
+	if rf.err != nil {
+		return 0, rf.err
+	}
+	n, err := rf.File.Write(b)
+	rf.err = err
+	return n, err
+}
+
 func (fc *FileControl) UsingTmp() bool {
 	return fc.tmp
 }
@@ -103,14 +120,20 @@ func (fc *FileControl) CloseRMBOptionsFile() {
 	}
 }
 
-func (fc *FileControl) OpenReportFile() (*os.File, error) {
-	var err error
-	fc.freport, err = os.OpenFile(fc.reportFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
+func (fc *FileControl) OpenReportFile() (*ReportFile, error) {
+	if fc.reportErr != nil {
+		// Entries of some previous level were lost already
+		return nil, fc.reportErr
+	}
+	f, err := os.OpenFile(fc.reportFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 		os.ModeExclusive|os.ModePerm)
 	if err != nil {
-		fc.freport = nil
+		fc.reportErr = err
 		return nil, err
 	}
+	fc.freport = &ReportFile{
+		File: f,
+	}
 	return fc.freport, nil
 }
 
@@ -118,13 +141,22 @@ func (fc *FileControl) CloseReportFile(suc bool) bool {
 	if fc.freport == nil {
 		return true
 	}
-	if suc {
+	if suc && fc.freport.err == nil {
+		// Entries must reach the disk before the claim that they are all there
+		fc.freport.err = fc.freport.Sync()
+	}
+	if suc && fc.freport.err == nil {
 		fc.freport.Write([]byte("# Report written successfully - no entries lost\n"))
 	} else {
-		fc.freport.Write([]byte("# Program aborted, report might be missing entries\n"))
+		suc = false
+		fc.freport.File.Write([]byte("# Program aborted, report might be missing entries\n"))
 	}
+	errWrite := fc.freport.err
 	err := fc.freport.Close()
-	if err != nil {
+	if errWrite != nil {
+		Log.Error("Couldn't write report file '%s': %s\n", fc.reportFileName, errWrite.Error())
+		err = errWrite
+	} else if err != nil {
 		Log.Error("Couldn't close report file '%s': %s\n", fc.reportFileName, err.Error())
 	} else {
 		if suc {
-- 
2.43.0


From 14921f0a6d2c0a5e11bee22568d69bb5002d25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 19/36] fix: NOPROCESS aborts or uses stale wad when external
 wad can't be read

---
 filecontrol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filecontrol.go b/filecontrol.go
index b2a7410..6e4e790 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -510,11 +510,12 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	}
 
 	// no, it is a new one
+	fc.pinnedExternalWad = nil // will be closed
 	f, err := fc.OpenExternalFile(wadFileName)
 	if err != nil {
 		Log.Error("An error has occured while trying to open %s: %s\n",
 			wadFileName, err)
-		os.Exit(1)
+		return nil
 	}
 
 	wh := new(WadHeader)
@@ -522,10 +523,12 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	if err5 != nil {
 		Log.Error("Couldn't read wad directory from %s: %s\n",
 			wadFileName, err5.Error())
+		return nil
 	}
 	wadDir := LoadWadDirectory(false, le, nil, nil, false, nil)
 	if wadDir == nil {
 		Log.Error("Couldn't read lump list from %s: no lumps?\n", wadFileName)
+		return nil
 	}
 	fc.pinnedExternalWad = &PinnedWad{
 		le:           le,
-- 
2.43.0


From 7d84fd758b6379140da2535712d6008c674b2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 20/36] fix: success is reported when temporary file is not
 copied in full

---
 filecontrol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index 6e4e790..d133dbb 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -250,7 +250,10 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 // in the middle, the destination can't be mistaken for a complete wad
 func overwriteWad(fout *os.File, fin *os.File) error {
 	header := make([]byte, binary.Size(WadHeader{}))
-	_, err := io.ReadFull(fin, header)
+	fileInfo, err := fin.Stat()
+	if err == nil {
+		_, err = io.ReadFull(fin, header)
+	}
 	if err == nil {
 		err = fout.Sync()
 	}
@@ -258,7 +261,7 @@ func overwriteWad(fout *os.File, fin *os.File) error {
 		_, err = fout.Seek(int64(len(header)), 0)
 	}
 	if err == nil {
-		_, err = io.Copy(fout, fin)
+		_, err = io.CopyN(fout, fin, fileInfo.Size()-int64(len(header)))
 	}
 	if err == nil {
 		err = fout.Sync()
-- 
2.43.0


From 6ec31112aa1d5756dca69a024fd567d32f88e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 21/36] fix: NOPROCESS can't use levels of input wad excluded
 from rebuilding

---
 vigilantbsp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index 4fa45d5..26181a3 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -152,9 +152,11 @@ func main() {
 	wadDir := LoadWadDirectory(true, le, rejectsize, troll, config.Eject, RMB)
 	ScheduleRoot, validities, lvls := wadDir.scheduleRoot, wadDir.validities,
 		wadDir.lvls
+	// As a source for NOPROCESS, input wad offers all of its levels and not just
+	// those which are going to be rebuilt, same as any other wad does
 	mainFileControl.inputWad = &PinnedWad{
 		le:           le,
-		scheduleRoot: ScheduleRoot,
+		scheduleRoot: LoadWadDirectory(false, le, nil, nil, false, nil).scheduleRoot,
 		readerAt:     f,
 	}
 
-- 
2.43.0


From 7c6a4486e649bd354e10ace98095001692466f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 22/36] fix: print nodes timer before the result is sent to the
 level

The level, and the whole program, is free to finish after receiving the
result, so the message landed in the output of the next level or was lost.
---
 multiformat_tree.go |  8 ++++++--
 multitree_plain.go  |  4 +++-
 nodegen.go          | 18 ++++++++++--------
 znodegen.go         | 17 ++++++++++-------
 4 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/multiformat_tree.go b/multiformat_tree.go
index 56dd339..3e20cba 100644
--- a/multiformat_tree.go
+++ b/multiformat_tree.go
@@ -59,8 +59,10 @@ func VanillaOrZdoomFormat_Create(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 			go ZNodesGenerator(input2)
 			// this interception is because timer is only output from here
 			nodeResult := <-nodesChan
+			// log before sending, level is free to finish afterwards
+			rootNode := nilAndPrintTimer(start, oldNodeType)
 			input.nodesChan <- nodeResult
-			return nilAndPrintTimer(start, oldNodeType)
+			return rootNode
 		}
 	} else {
 		// concurrent mode
@@ -79,8 +81,10 @@ func VanillaOrZdoomFormat_Create(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 		nodeResult := <-nodesChan
 		if useZdoom {
 			input.lines.AssignFrom(input2.lines)
+			// log before sending, level is free to finish afterwards
+			rootNode := nilAndPrintTimer(start, oldNodeType)
 			input.nodesChan <- nodeResult
-			return nilAndPrintTimer(start, oldNodeType)
+			return rootNode
 		}
 	}
 
diff --git a/multitree_plain.go b/multitree_plain.go
index 53ac7ca..f69a917 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -357,9 +357,11 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 			go ZNodesGenerator(input2)
 			// this interception is because timer is only output from here
 			nodeResult := <-nodesChan
+			// log before sending, level is free to finish afterwards
+			rootNode := MTP_nilAndPrintTimer(foreign.start, treesDone+1, oldNodeType)
 			foreign.input.nodesChan <- nodeResult
 			// we already sent result through channel, will return
-			return MTP_nilAndPrintTimer(foreign.start, treesDone+1, oldNodeType), 0
+			return rootNode, 0
 		}
 	}
 
diff --git a/nodegen.go b/nodegen.go
index 263c074..5ca7c1e 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -869,32 +869,33 @@ func NodesGenerator(input *NodesInput) {
 			input.lines.Len())
 	}
 
+	var result NodesResult
 	if workData.nodeType == NODETYPE_DEEP {
-		input.nodesChan <- NodesResult{
+		result = NodesResult{
 			deepNodes:      workData.deepNodes,
 			deepSegs:       workData.deepSegs,
 			deepSubsectors: workData.deepSubsectors,
 		}
 	} else if workData.nodeType == NODETYPE_VANILLA {
-		input.nodesChan <- NodesResult{
+		result = NodesResult{
 			nodes:      workData.nodes,
 			segs:       workData.segs,
 			subsectors: workData.subsectors,
 		}
 	} else { // NODETYPE_EXTENDED / NODETYPE_COMPRESSED
-		if workData.deepNodes == nil {
-			// Was emptied for whatever reason (number of subsectors too
-			// large even for this format?! see check somewhere above)
-			input.nodesChan <- NodesResult{}
-		} else {
+		// deepNodes could be emptied for whatever reason (number of subsectors
+		// too large even for this format?! see check somewhere above)
+		if workData.deepNodes != nil {
 			// Ok, so we need to write whole bytestream. And we will allocate
 			// it all in memory for now, for simplicity
-			input.nodesChan <- NodesResult{
+			result = NodesResult{
 				rawNodes:   workData.getZdoomNodesBytes(),
 				compressed: workData.nodeType == NODETYPE_ZDOOM_COMPRESSED,
 			}
 		}
 	}
+	// Must be logged before the result is sent: the level is free to finish as
+	// soon as it has got everything
 	if !alreadyCloned {
 		if treeCount == 0 {
 			Log.Printf("Nodes took %s\n", time.Since(start))
@@ -904,6 +905,7 @@ func NodesGenerator(input *NodesInput) {
 			Log.Printf("Nodes took %s (avg %s per tree)\n", dur, avg)
 		}
 	}
+	input.nodesChan <- result
 }
 
 func RoundToPrecision(n float64) Number {
diff --git a/znodegen.go b/znodegen.go
index afd6c1a..fd8a0e7 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -560,30 +560,30 @@ func ZExt_NodesGenerator(input *NodesInput) {
 			input.lines.Len())
 	}
 
+	var result NodesResult
 	if workData.nodeType == NODETYPE_DEEP {
-		input.nodesChan <- NodesResult{
+		result = NodesResult{
 			deepNodes:      workData.deepNodes,
 			deepSegs:       workData.deepSegs,
 			deepSubsectors: workData.deepSubsectors,
 		}
 	} else if workData.nodeType == NODETYPE_VANILLA {
-		input.nodesChan <- NodesResult{
+		result = NodesResult{
 			nodes:      workData.nodes,
 			segs:       workData.segs,
 			subsectors: workData.subsectors,
 		}
 	} else {
-		if workData.deepNodes == nil {
 
-			input.nodesChan <- NodesResult{}
-		} else {
+		if workData.deepNodes != nil {
 
-			input.nodesChan <- NodesResult{
+			result = NodesResult{
 				rawNodes:   workData.getZdoomNodesBytes(),
 				compressed: workData.nodeType == NODETYPE_ZDOOM_COMPRESSED,
 			}
 		}
 	}
+
 	if !alreadyCloned {
 		if treeCount == 0 {
 			Log.Printf("Nodes took %s\n", time.Since(start))
@@ -593,6 +593,7 @@ func ZExt_NodesGenerator(input *NodesInput) {
 			Log.Printf("Nodes took %s (avg %s per tree)\n", dur, avg)
 		}
 	}
+	input.nodesChan <- result
 }
 
 func (n ZNumber) Floor16() int16 {
@@ -4474,9 +4475,11 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 			go ZNodesGenerator(input2)
 
 			nodeResult := <-nodesChan
+
+			rootNode := MTP_nilAndPrintTimer(foreign.start, treesDone+1, oldNodeType)
 			foreign.input.nodesChan <- nodeResult
 
-			return MTP_nilAndPrintTimer(foreign.start, treesDone+1, oldNodeType), 0
+			return rootNode, 0
 		}
 	}
 
-- 
2.43.0


From 2eea9dde13e404039822bd44cff208422ff337c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 23/36] fix: hash printed for NODES lump in DeeP format must
 cover its signature

---
 lumpwrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lumpwrite.go b/lumpwrite.go
index bc6dd20..86b331c 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -81,7 +81,12 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 		return err
 	}
 	if config.HashLumps {
-		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
+		// signature is part of the lump
+		hsh := sha256.New()
+		hsh.Write(DEEPNODES_SIG[:])
+		binary.Write(hsh, binary.LittleEndian, data)
+		hashSuffix = fmt.Sprintf(" (HASH: %s)",
+			base64.StdEncoding.EncodeToString(hsh.Sum(nil)))
 	}
 	dataLen := binary.Size(data)
 	le[lumpIdx].FilePos = *curPos
-- 
2.43.0


From 311a07700060b30bc71c715abe463336e4677970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 24/36] fix: report doesn't overwrite files in use when its
 name leads to one of them

---
 filecontrol.go | 34 ++++++++++++++++++++++++++++++++++
 rmbunit.go     | 25 +++++++++++++++++++++++++
 2 files changed, 59 insertions(+)

diff --git a/filecontrol.go b/filecontrol.go
index d133dbb..c077f62 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -47,6 +47,7 @@ type FileControl struct {
 	pinnedFileName    string // for pinnedExternalWad
 	inputWad          *PinnedWad
 	pinnedExternalWad *PinnedWad // for RMB option NOPROCESS
+	nagWads           []string   // wads named by RMB options NOPROCESS
 }
 
 // ReportFile remembers if it couldn't be written, so that report which lacks
@@ -125,6 +126,11 @@ func (fc *FileControl) OpenReportFile() (*ReportFile, error) {
 		// Entries of some previous level were lost already
 		return nil, fc.reportErr
 	}
+	err := fc.checkReportName()
+	if err != nil {
+		fc.reportErr = err
+		return nil, err
+	}
 	f, err := os.OpenFile(fc.reportFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 		os.ModeExclusive|os.ModePerm)
 	if err != nil {
@@ -137,6 +143,33 @@ func (fc *FileControl) OpenReportFile() (*ReportFile, error) {
 	return fc.freport, nil
 }
 
+// User never specifies report file name directly, so make sure it doesn't map to
+// some file that is in use already, be it by same name, hardlink, or symlink:
+// creating report would destroy that file
+func (fc *FileControl) checkReportName() error {
+	f1, err := os.Stat(fc.reportFileName)
+	if errors.Is(err, os.ErrNotExist) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	inUse := []string{fc.inputFileName, fc.outputFileName, fc.rmbFileName}
+	for _, nagWad := range fc.nagWads {
+		inUse = append(inUse, fc.ResolveFilepath(nagWad))
+	}
+	for _, name := range inUse {
+		f2, err := os.Stat(name)
+		if err == nil && os.SameFile(f1, f2) {
+			return fmt.Errorf("report would overwrite file '%s'", name)
+		}
+		if err != nil && !errors.Is(err, os.ErrNotExist) {
+			return err
+		}
+	}
+	return nil
+}
+
 func (fc *FileControl) CloseReportFile(suc bool) bool {
 	if fc.freport == nil {
 		return true
@@ -407,6 +440,7 @@ func LoadAssociatedRMB(wadFullFileName string, fileControl *FileControl) *Loaded
 	if !b {
 		Log.Panic("Fatal error: RMB options file contains syntax errors.\n")
 	}
+	fileControl.nagWads = res.wadsToSource()
 	return res
 }
 
diff --git a/rmbunit.go b/rmbunit.go
index 9b3e786..d8fc84e 100755
--- a/rmbunit.go
+++ b/rmbunit.go
@@ -21,6 +21,7 @@ package main
 
 import (
 	"fmt"
+	"sort"
 )
 
 const ( // RMB option/command types
@@ -140,6 +141,30 @@ func (l *LoadedRMB) LookupRMBFrameForMapMarker(marker []byte) *RMBFrame {
 	return l.LookupRMBFrameForMap(frameId)
 }
 
+// Names of all wads specified by NOPROCESS options, as they are in RMB file
+func (l *LoadedRMB) wadsToSource() []string {
+	if l == nil {
+		return nil
+	}
+	wads := make([]string, 0)
+	collect := func(frame *RMBFrame) {
+		if frame == nil {
+			return
+		}
+		for _, cmd := range frame.Commands {
+			if len(cmd.WadFileName) > 0 {
+				wads = append(wads, string(cmd.WadFileName))
+			}
+		}
+	}
+	collect(l.globalFrame)
+	for _, frame := range l.mapFrames {
+		collect(frame)
+	}
+	sort.Strings(wads)
+	return wads
+}
+
 func (l *RMBCommand) Error(s string, a ...interface{}) {
 	fmtS := fmt.Sprintf("RMB %s%d error: %s", l.getFile(), l.SrcLine, s)
 	Log.Error(fmtS, a...)
-- 
2.43.0


From 7598d90571fa8181c522eaebc72ae9eee3db180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 25/36] fix: wall was treated as dummy linedef when preceded by
 a remote scroller

---
 level.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/level.go b/level.go
index e832838..35fcbdb 100755
--- a/level.go
+++ b/level.go
@@ -713,17 +713,20 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	backSdefForGroup := make([]uint16, 0) // not part of identity, but needs to be copied
 	// map from ScrollerGroup to array of producers (linedef indices)
 	scrollerToProducerMap := make(map[ScrollerGroup][]int)
+	// the wall that is scrolled, it may be preceded by a remote producer and thus
+	// is not necessarily the first one in array of producers
+	scrollerToWallMap := make(map[ScrollerGroup]int)
 	for i, linedef := range linedefs {
 		if linedef.Action == 48 {
 			// Normal scroll action
 			addProducer(&scrollerGroupList, &backSdefForGroup,
-				&scrollerToProducerMap,
+				&scrollerToProducerMap, scrollerToWallMap,
 				ScrollerGroup{
 					StartVertex: linedef.StartVertex,
 					EndVertex:   linedef.EndVertex,
 					FrontSdef:   linedef.FrontSdef,
 				},
-				i, linedef.BackSdef)
+				i, i, linedef.BackSdef)
 
 		} else if linedef.Action == 1048 && linedef.Tag > 0 {
 			// Remote scroll action
@@ -750,13 +753,13 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 				// the remote scroll action
 				linedef2 := linedefs[nearest]
 				addProducer(&scrollerGroupList, &backSdefForGroup,
-					&scrollerToProducerMap,
+					&scrollerToProducerMap, scrollerToWallMap,
 					ScrollerGroup{
 						StartVertex: linedef2.StartVertex,
 						EndVertex:   linedef2.EndVertex,
 						FrontSdef:   linedef2.FrontSdef,
 					},
-					i, linedef2.BackSdef)
+					i, nearest, linedef2.BackSdef)
 			} else {
 				Log.Verbose(1, "Linedef %d has action 1048 (remote scroll) and non-zero tag value of %d, but another linedef with same tag value doesn't exist.\n",
 					i, linedef.Tag)
@@ -777,6 +780,7 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	linedefsToCull := make([]int, 0)
 	for i, scrollerGroup := range scrollerGroupList {
 		producers := scrollerToProducerMap[scrollerGroup]
+		wall := scrollerToWallMap[scrollerGroup]
 		scrollPower := linedefs[producers[0]].Tag // the earliest takes precedence
 		if linedefs[producers[0]].Action == 1048 {
 			// 2 last digits decide scroll speed for Action = 1048, not
@@ -796,11 +800,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			scrollPower = 1
 		}
 		currPower := uint16(0)
-		for idx, j := range producers {
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
 				currPower++
-				// Also let's reset tag value (except for the first, of course)
-				if idx != 0 {
+				// Also let's reset tag value (except for the wall, of course)
+				if j != wall {
 					linedefs[j].Tag = 0
 					// Only if dryRun == true are dummies recorded here rather
 					// than later, because if dryRun == false some may be
@@ -824,11 +828,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			addLineCount[i] = 0
 			remove := currPower - scrollPower
 			removed := uint16(0)
-			for idx, j := range producers {
+			for _, j := range producers {
 				if removed == remove {
 					break
 				}
-				if idx > 0 && linedefs[j].Action == 48 {
+				if j != wall && linedefs[j].Action == 48 {
 					linedefsToCull = append(linedefsToCull, j)
 					removed++
 				}
@@ -876,10 +880,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	// some may have changed index, so compute new index
 	for _, scrollerGroup := range scrollerGroupList {
 		producers := scrollerToProducerMap[scrollerGroup]
-		for idx, j := range producers {
+		wall := scrollerToWallMap[scrollerGroup]
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
-				// If it's the first line, is not dummy
-				if idx != 0 {
+				// If it's the wall itself, is not dummy
+				if j != wall {
 					// Actualize the number or skip altogether, if it is
 					// deleted
 					deleted := false
@@ -926,8 +931,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 }
 
 func addProducer(scrollerGroupList *[]ScrollerGroup, backSdefForGroup *[]uint16,
-	stpMap *map[ScrollerGroup][]int, scrollerGroup ScrollerGroup,
-	linedefIdx int, backsdef uint16) {
+	stpMap *map[ScrollerGroup][]int, stwMap map[ScrollerGroup]int,
+	scrollerGroup ScrollerGroup, linedefIdx int, wallIdx int, backsdef uint16) {
 	producers, exists := (*stpMap)[scrollerGroup]
 	if !exists {
 		producers = make([]int, 0)
@@ -936,6 +941,10 @@ func addProducer(scrollerGroupList *[]ScrollerGroup, backSdefForGroup *[]uint16,
 	}
 	producers = append(producers, linedefIdx)
 	(*stpMap)[scrollerGroup] = producers
+	// dummy linedefs follow the wall they were created for
+	if wall, known := stwMap[scrollerGroup]; !known || wallIdx < wall {
+		stwMap[scrollerGroup] = wallIdx
+	}
 }
 
 func DistanceTwoPoints(sx, sy, ex, ey int16) float64 {
-- 
2.43.0


From 0d7eca1fe334fcdbecb5e21a404c680c174d6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 26/36] fix: empty vanilla nodes lumps when there are too many
 vertices for SEGS to refer to

---
 nodegen.go  | 7 +++++++
 znodegen.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/nodegen.go b/nodegen.go
index 5ca7c1e..6c6f728 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -854,6 +854,13 @@ func NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA &&
+		len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
diff --git a/znodegen.go b/znodegen.go
index fd8a0e7..3279d35 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -545,6 +545,13 @@ func ZExt_NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA &&
+		len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
-- 
2.43.0


From 1f7c786fd3982a5cd1a4c41af59e2075ab73ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 27/36] fix: release solid blockmap workers when Zdoom nodes
 replace vanilla ones

---
 nodegen.go  | 14 ++++++++++++++
 znodegen.go | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/nodegen.go b/nodegen.go
index 6c6f728..176a609 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -630,6 +630,13 @@ func NodesGenerator(input *NodesInput) {
 			rootNode = VanillaOrZdoomFormat_Create(&workData, rootSeg, rootBox,
 				initialSuper, oldNodeType, passthrough)
 			if rootNode == nil {
+				if requestedSolid {
+					// solid blockmap has no more users here in this case, either
+					input.bcontrol <- BconRequest{
+						Sender:  SOLIDBLOCKS_NODES,
+						Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
+					}
+				}
 				return // message was sent from Zdoom generator spawned from dispatch
 			}
 		} else {
@@ -704,6 +711,13 @@ func NodesGenerator(input *NodesInput) {
 		rootNode, treeCount = MTPSentinel_MakeBestBSPTree(&workData, rootBox,
 			initialSuper, input.specialRootMode, oldNodeType, foreign)
 		if rootNode == nil {
+			if requestedSolid {
+				// solid blockmap has no more users here in this case, either
+				input.bcontrol <- BconRequest{
+					Sender:  SOLIDBLOCKS_NODES,
+					Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
+				}
+			}
 			return // message was sent from Zdoom generator spawned from dispatch
 		}
 	} else {
diff --git a/znodegen.go b/znodegen.go
index 3279d35..ff400cc 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -396,6 +396,13 @@ func ZExt_NodesGenerator(input *NodesInput) {
 			rootNode = ZExt_VanillaOrZdoomFormat_Create(&workData, rootSeg, rootBox,
 				initialSuper, oldNodeType, passthrough)
 			if rootNode == nil {
+				if requestedSolid {
+
+					input.bcontrol <- BconRequest{
+						Sender:  SOLIDBLOCKS_NODES,
+						Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
+					}
+				}
 				return
 			}
 		} else {
@@ -453,6 +460,13 @@ func ZExt_NodesGenerator(input *NodesInput) {
 		rootNode, treeCount = ZExt_MTPSentinel_MakeBestBSPTree(&workData, rootBox,
 			initialSuper, input.specialRootMode, oldNodeType, foreign)
 		if rootNode == nil {
+			if requestedSolid {
+
+				input.bcontrol <- BconRequest{
+					Sender:  SOLIDBLOCKS_NODES,
+					Message: BCON_DONE_WITH_SOLID_BLOCKMAP,
+				}
+			}
 			return
 		}
 	} else {
-- 
2.43.0


From 96dffa192f9e95b1e8cffe14e1e2894cef23fa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 28/36] fix: division by zero when zen variables cancel out
 split penalties

---
 zenscore.go | 6 +++---
 znodegen.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/zenscore.go b/zenscore.go
index 0c8421d..783ce14 100755
--- a/zenscore.go
+++ b/zenscore.go
@@ -306,7 +306,7 @@ func scoreIntermediate(rec *DepthScoreBundle, inter *ZenIntermediary,
 	if inter.segS > 0 {
 		// Have seg splits, so
 		tmp := ZEN_X1 * inter.segS
-		if ZEN_X2 < tmp {
+		if tmp != 0 && ZEN_X2 < tmp {
 			rec.scoreSeg = ZEN_X2 * rec.scoreSeg / tmp
 		}
 		if depthArtifacts {
@@ -331,7 +331,7 @@ func scoreIntermediate(rec *DepthScoreBundle, inter *ZenIntermediary,
 		// consts. That is not the only change here, however
 		if inter.sectorS > 0 {
 			tmp := ZEN_X1 * inter.sectorS
-			if ZEN_X2 < tmp {
+			if tmp != 0 && ZEN_X2 < tmp {
 				rec.scoreSector = ZEN_X2 * rec.scoreSector / tmp
 			}
 			// Bye bye sanity - yes the last multiplicative is number
@@ -350,7 +350,7 @@ func scoreIntermediate(rec *DepthScoreBundle, inter *ZenIntermediary,
 		// What I though it would be
 		if inter.sectorS > 0 {
 			tmp := ZEN_Y1 * inter.sectorS
-			if ZEN_Y2 < tmp {
+			if tmp != 0 && ZEN_Y2 < tmp {
 				rec.scoreSector = ZEN_Y2 * rec.scoreSector / tmp
 			}
 			// Next formula is not what Zennode and ZokumBSP defacto
diff --git a/znodegen.go b/znodegen.go
index ff400cc..27633fd 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -5809,7 +5809,7 @@ func ZExt_scoreIntermediate(rec *ZExt_DepthScoreBundle, inter *ZenIntermediary,
 	if inter.segS > 0 {
 
 		tmp := ZEN_X1 * inter.segS
-		if ZEN_X2 < tmp {
+		if tmp != 0 && ZEN_X2 < tmp {
 			rec.scoreSeg = ZEN_X2 * rec.scoreSeg / tmp
 		}
 		if depthArtifacts {
@@ -5831,7 +5831,7 @@ func ZExt_scoreIntermediate(rec *ZExt_DepthScoreBundle, inter *ZenIntermediary,
 
 		if inter.sectorS > 0 {
 			tmp := ZEN_X1 * inter.sectorS
-			if ZEN_X2 < tmp {
+			if tmp != 0 && ZEN_X2 < tmp {
 				rec.scoreSector = ZEN_X2 * rec.scoreSector / tmp
 			}
 
@@ -5847,7 +5847,7 @@ func ZExt_scoreIntermediate(rec *ZExt_DepthScoreBundle, inter *ZenIntermediary,
 
 		if inter.sectorS > 0 {
 			tmp := ZEN_Y1 * inter.sectorS
-			if ZEN_Y2 < tmp {
+			if tmp != 0 && ZEN_Y2 < tmp {
 				rec.scoreSector = ZEN_Y2 * rec.scoreSector / tmp
 			}
 
-- 
2.43.0


From ceb307a015494864061e0f2a5057b62518928d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 29/36] fix: result was random when zen variable was given in
 both letter cases

---
 cmdparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdparser.go b/cmdparser.go
index 05c03e5..f251890 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -1199,7 +1199,8 @@ func readIntParams(arg []byte) (bool, map[string]int) {
 				string(v), string(p))
 			return false, nil
 		}
-		rmp[string(k)] = vv
+		// case doesn't matter: when parameter is given twice, last one wins
+		rmp[strings.ToLower(string(k))] = vv
 	}
 	return true, rmp
 }
-- 
2.43.0


From 6a044ea7f7a17b4beadca50dc6ab292d06b46d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 30/36] fix: crash when -nc lacks a value or a profile option
 its file

---
 cmdparser.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index f251890..da114be 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -156,19 +156,23 @@ func (c *ProgramConfig) FromCommandLine() bool {
 				if bytes.Equal([]byte(arg), []byte("--cpuprofile")) {
 					// Parameter: write cpu profile to file following this
 					// parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
 						(args[argIdx+1] != "")
-					c.Profile = true
-					c.ProfilePath = args[argIdx+1]
-					skip = true
+					if fileSatisfied {
+						c.Profile = true
+						c.ProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--memprofile")) {
 					// Parameter: write memory allocations (Go "allocs")
 					// profile to file following this parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
-						(args[argIdx] != "")
-					c.MemProfile = true
-					c.MemProfilePath = args[argIdx+1]
-					skip = true
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
+						(args[argIdx+1] != "")
+					if fileSatisfied {
+						c.MemProfile = true
+						c.MemProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--unreversenodes")) {
 					// Parameter: write BSP tree without the traditionally
 					// used reversal, keeping only root node at the last index
@@ -793,6 +797,11 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 		case 'c':
 			{
 				displace := 0
+				if len(p) < 3 {
+					Log.Error("Missing value for NODES format.\n")
+					p = p[:0]
+					continue
+				}
 				if bytes.Equal(p[1:3], []byte("=v")) {
 					c.NodeType = NODETYPE_VANILLA
 				} else if bytes.Equal(p[1:3], []byte("=d")) {
-- 
2.43.0


From 5e882b192c0296e02ecf3ee1d094a5384f78cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 31/36] fix: crash when --roots or -nw is huge with zen-like
 partitioner

---
 picknode.go | 5 ++++-
 znodegen.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/picknode.go b/picknode.go
index b640209..26cf326 100755
--- a/picknode.go
+++ b/picknode.go
@@ -1997,7 +1997,10 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 			return nil
 		}
 		ZenPickBestScore(w.zenScores)
-		rootN := config.Roots                      // reference to global: config
+		rootN := config.Roots // reference to global: config
+		if rootN > len(w.zenScores) {
+			rootN = len(w.zenScores)
+		}
 		rootChoiceMethod := config.SpecialRootMode // reference to global: config
 		w.parts = make([]*NodeSeg, 0, rootN)
 		i := 0
diff --git a/znodegen.go b/znodegen.go
index 27633fd..21bc9fe 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3504,6 +3504,9 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 		}
 		ZExt_ZenPickBestScore(w.zenScores)
 		rootN := config.Roots
+		if rootN > len(w.zenScores) {
+			rootN = len(w.zenScores)
+		}
 		rootChoiceMethod := config.SpecialRootMode
 		w.parts = make([]*ZExt_NodeSeg, 0, rootN)
 		i := 0
-- 
2.43.0


From 63d257ac23bc739288144e807a46e694b979f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 32/36] fix: blockmap lists differing by linedef 0 only were
 not recognized as subsets

---
 bblocks.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bblocks.go b/bblocks.go
index 8a9fdf0..1118ce0 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -918,8 +918,9 @@ func (bm *Blockmap) CompressSubsets(chunks []*BlocklistChunk) {
 					continue
 				}
 				// hash function was chosen so that
-				// every subset has a smaller hash
-				if bigOne.hash <= smallOne.hash2 {
+				// every subset has a smaller hash, or the
+				// same one when it only lacks linedef 0
+				if bigOne.hash < smallOne.hash2 {
 					continue
 				}
 				smallOneData := smallOne.identity.data
@@ -985,8 +986,9 @@ func (bm *Blockmap) EliminateSubsets(chunks []*BlocklistChunk) {
 					continue
 				}
 				// hash function was chosen so that
-				// every subset has a smaller hash
-				if bigOne.hash <= smallOne.hash2 {
+				// every subset has a smaller hash, or the
+				// same one when it only lacks linedef 0
+				if bigOne.hash < smallOne.hash2 {
 					continue
 				}
 				smallOneData := smallOne.identity.data
-- 
2.43.0


From 13d02767ad404781e826a48ee316f76bc0c6ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 33/36] fix: crash when the number of threads for brute-forcing
 blockmap is huge

---
 blockmapgen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index fa92712..81b0b0f 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -210,6 +210,12 @@ func BlockmapQueen(offsetXMax int16, offsetYMax int16, offsetStep int16,
 			beeCount = MAX_BEES
 		}
 	}
+	// There is no use for more bees than there are offsets to try. Besides,
+	// their starting offsets and steps would overflow
+	maxBees := (offsetXMax / offsetStep) * (offsetYMax / offsetStep)
+	if beeCount > maxBees {
+		beeCount = maxBees
+	}
 	if beeCount < 1 { // just in case something goes wrong
 		beeCount = 1
 	}
-- 
2.43.0


From f4df2f9e5c91c493359d46ea81d452a95f15bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 34/36] fix: running out of memory on a header with a garbage
 number of lumps

---
 wad.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wad.go b/wad.go
index 57f79e8..6e8b487 100644
--- a/wad.go
+++ b/wad.go
@@ -625,6 +625,15 @@ func TryReadWadDirectory(isInputFile bool, f *os.File,
 		return nil, errors.New(fmt.Sprintf("Couldn't move to wad's directory structure (%d offset): %s", wh.DirectoryStart, err.Error()))
 	}
 
+	// A garbage value must not make us ask for more memory than there is
+	fi, err := f.Stat()
+	if err != nil {
+		return nil, errors.New(fmt.Sprintf("Couldn't find out the size of wad: %s", err.Error()))
+	}
+	if int64(wh.LumpCount)*int64(binary.Size(LumpEntry{})) > fi.Size() {
+		return nil, errors.New("Failed to read lump info from a wad's directory: wad is smaller than its directory")
+	}
+
 	// Read in whole directory at once
 	le := make([]LumpEntry, wh.LumpCount, wh.LumpCount)
 	err = binary.Read(f, binary.LittleEndian, le)
-- 
2.43.0


From 1fe533b4be732cb984d5b89a038198241e438820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 35/36] fix: crash when segs are reordered to fit and the moved
 subsector ends past 65535

---
 node_outro.go | 5 +++--
 znodegen.go   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/node_outro.go b/node_outro.go
index 9cd7243..f37ae66 100755
--- a/node_outro.go
+++ b/node_outro.go
@@ -145,8 +145,9 @@ func (w *NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool, int)
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	// The subsector to move may end where its end doesn't fit uint16
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 	// Move pivot:pivot2 subslice to the end of w.segs slice
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
diff --git a/znodegen.go b/znodegen.go
index 21bc9fe..120edaf 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1985,8 +1985,9 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	// The subsector to move may end where its end doesn't fit uint16
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
-- 
2.43.0


From cd081d60b8ce10544ac00def70034a700ccac4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 36/36] fix: BSPNOSEG of the back side was looked up on the
 front sidedef

---
 node_intro.go | 2 +-
 znodegen.go   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/node_intro.go b/node_intro.go
index 3649e4e..434fac4 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -361,7 +361,7 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1084 is do not render back side (zokumbsp)
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
diff --git a/znodegen.go b/znodegen.go
index 120edaf..8adf4be 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1509,7 +1509,7 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
@@ -1985,7 +1985,6 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	// The subsector to move may end where its end doesn't fit uint16
 	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
 	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 
-- 
2.43.0

