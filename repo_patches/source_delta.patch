From 56848e811d7651d7a512b05cca761e5c4456e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 1/8] fix: ScanUTF8Sequences must not wait for undecodable
 bytes or U+FFFD to be completed

A scanner using it held back everything from the first undecodable byte, or
literal U+FFFD, until the end of the input, and failed with a token-too-long
error on longer inputs.
---
 autoversion/textseg/version_agnostic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 3681403..ab71805 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"unicode/utf8"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -17,6 +18,12 @@ import (
 //
 // Deprecated: This will be removed in a future version.
 func ScanUTF8Sequences(data []byte, atEOF bool) (int, []byte, error) {
+	// The underlying implementation mistakes any undecodable byte, and also a
+	// literal U+FFFD, for a sequence that might be completed by later bytes.
+	// Only a sequence that really could be is worth waiting for.
+	if utf8.FullRune(data) {
+		atEOF = true
+	}
 	return realImpl.ScanUTF8Sequences(data, atEOF)
 }
 
-- 
2.43.0


From 8d1106d3e245f60acabe2527bc6841834337f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 2/8] fix: AllTokens must not return tokens that share the
 scanner's buffer

For inputs larger than half the scanner's buffer the earlier tokens were
overwritten by later input.
---
 autoversion/textseg/version_agnostic.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index ab71805..a0e647c 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"bytes"
 	"unicode/utf8"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
@@ -38,5 +39,11 @@ func TokenCount(buf []byte, splitFunc bufio.SplitFunc) (int, error) {
 //
 // Deprecated: This will be removed in a future version.
 func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {
-	return realImpl.AllTokens(buf, splitFunc)
+	// The underlying implementation keeps slices of the scanner's internal
+	// buffer, which the scanner overwrites as it moves on, so each token must
+	// get memory of its own.
+	return realImpl.AllTokens(buf, func(data []byte, atEOF bool) (int, []byte, error) {
+		advance, token, err := splitFunc(data, atEOF)
+		return advance, bytes.Clone(token), err
+	})
 }
-- 
2.43.0


From ffc3524fb4b9070651218541ff93bae73ea61947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 3/8] fix: table generator must fail when it cannot write its
 whole output

---
 textseg/internal/charprops/generate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/generate.go b/textseg/internal/charprops/generate.go
index a500931..a07db4d 100644
--- a/textseg/internal/charprops/generate.go
+++ b/textseg/internal/charprops/generate.go
@@ -74,5 +74,12 @@ func main() {
 		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 		os.Exit(1)
 	}
-	f.Write(src)
+	_, err = f.Write(src)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 9577cb7a05c662b3004fae8a588b7a25217fb999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 4/8] fix: table generator must not destroy the existing table
 when it fails or is killed

---
 textseg/internal/charprops/generate.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/textseg/internal/charprops/generate.go b/textseg/internal/charprops/generate.go
index a07db4d..c6e97f5 100644
--- a/textseg/internal/charprops/generate.go
+++ b/textseg/internal/charprops/generate.go
@@ -69,16 +69,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	f, err := os.Create("property_table_raw.go")
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
-		os.Exit(1)
-	}
-	_, err = f.Write(src)
-	if closeErr := f.Close(); err == nil {
-		err = closeErr
+	// The table is written under another name first and moved into place only
+	// once it is complete, so that a failure never destroys the existing one.
+	const tempName = "property_table_raw.go.tmp"
+	err = os.WriteFile(tempName, src, 0666)
+	if err == nil {
+		err = os.Rename(tempName, "property_table_raw.go")
 	}
 	if err != nil {
+		os.Remove(tempName)
 		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 		os.Exit(1)
 	}
-- 
2.43.0


From 6078699e3a5ae73b3fea0b02e606980b7aa08e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 5/8] fix: boundary state machine must recognize a flag that
 directly follows another sequence

---
 textseg/internal/machine/state.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/textseg/internal/machine/state.go b/textseg/internal/machine/state.go
index d671b4e..75c66f7 100644
--- a/textseg/internal/machine/state.go
+++ b/textseg/internal/machine/state.go
@@ -153,15 +153,12 @@ func (s State) nextState(next charprops.CharProperties) State {
 	}
 	gcbProp := next.GCBProperty()
 	incbProp := next.InCBProperty()
+	if gcbProp == charprops.GCBRegionalIndicator && s != StateAwaitEmojiFlag {
+		// The first half of a flag, unless it's already the second half of one.
+		return StateAwaitEmojiFlag
+	}
 	switch s {
-	case StateBase:
-		switch gcbProp {
-		case charprops.GCBRegionalIndicator:
-			return StateAwaitEmojiFlag
-		default:
-			return StateBase
-		}
-	case StateAwaitEmojiFlag:
+	case StateBase, StateAwaitEmojiFlag:
 		return StateBase
 	case StateGB11BeforeZWJ:
 		switch gcbProp {
-- 
2.43.0


From ad3be7f935fb76b743902e8875c996164a008ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 6/8] fix: surrogate code points in the data files no longer
 give their properties to U+FFFD

---
 textseg/internal/charprops/gentable/generate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..49d7f4f 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
@@ -113,6 +114,9 @@ func newTreeInProgress() *treeInProgress {
 }
 
 func (t *treeInProgress) Set(r rune, v uint8) {
+	if utf16.IsSurrogate(r) {
+		return // has no UTF-8 encoding, so can never be looked up
+	}
 	rawProps := t.ensureProps(r)
 	if v == 4 && *rawProps != 0 {
 		panic(fmt.Sprintf("conflicting properties for U+%04X: already had %02x, but now have %02x", r, *rawProps, v))
@@ -121,6 +125,9 @@ func (t *treeInProgress) Set(r rune, v uint8) {
 }
 
 func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
+	if utf16.IsSurrogate(r) {
+		return // has no UTF-8 encoding, so can never be looked up
+	}
 	rawProps := t.ensureProps(r)
 	*rawProps |= propMask
 }
-- 
2.43.0


From 317a2f4dcbb89fd74d367ed2befe37d04059b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 7/8] fix: refuse UCD ranges that are reversed or beyond
 U+10FFFF

They were silently skipped, or (110000 and up) gave their property to
U+FFFD, which is what encoding an invalid code point yields.
---
 textseg/internal/charprops/ucdparse/ucd_scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..776a6fa 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"iter"
 	"strconv"
+	"unicode"
 )
 
 type Scanner struct {
@@ -51,6 +52,11 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		} else {
 			end = start
 		}
+		if uint32(end) < uint32(start) || uint32(end) > unicode.MaxRune {
+			// Otherwise a range like this would quietly cover nothing, or
+			// would be taken for other characters than it says.
+			return Entry{}, fmt.Errorf("invalid character range %q", rng)
+		}
 		return Entry{
 			Start:  start,
 			End:    end + 1,
-- 
2.43.0


From f46c9a5b7323f03b34f585ec8fdddaf906555ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:18 +0000
Subject: [PATCH 8/8] fix: gentable panics when a block equals the first block
 of ASCII

The first block was offered for sharing although its index, zero, is
reserved, so that data in which other characters have the same properties
as the first 64 (none at all, say) could not be compiled into a table.
---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 49d7f4f..79fbb11 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -184,8 +184,8 @@ func (t *treeInProgress) Compact() RawPropertyTree {
 	indexBlockIdxs := make(map[string]uint16)
 
 	// The first 128 property values are fixed in place to represent the
-	// properties for the ASCII characters.
-	propBlockIdxs[propertyBlockKey(t.rawProps[:blockSize])] = 0
+	// properties for the ASCII characters. Other parts of the tree can share
+	// only the second of those blocks, because index zero is reserved.
 	propBlockIdxs[propertyBlockKey(t.rawProps[blockSize:blockSize*2])] = 1
 	props = append(props, t.rawProps[:128]...)
 
-- 
2.43.0

