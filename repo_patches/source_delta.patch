From 6b219e29d34aefbfe2f8de292ec6303aa0574232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 01/28] fix: do not accept partially read data when loading
 sets, tags and index

---
 internal/index/idx.go        |  3 +++
 internal/index/tagset_def.go |  3 ++-
 pkg/common/reader.go         | 22 ++++++++++++++++++++++
 pkg/dag/idx.go               |  2 ++
 pkg/dag/name.go              |  4 ++++
 pkg/storage/set16.go         |  4 +++-
 pkg/storage/set8.go          |  4 +++-
 7 files changed, 39 insertions(+), 3 deletions(-)
 create mode 100644 pkg/common/reader.go

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..015d506 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -8,6 +8,7 @@ import (
 	"github.com/amarin/binutils"
 	"github.com/amarin/logging"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -221,6 +222,8 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	index.mu.Lock()
 	defer index.mu.Unlock()
 
+	reader = binutils.NewBinaryReader(common.FullReader(reader)) // short reads must not be padded silently
+
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..6aca404 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -125,7 +126,7 @@ func (tagSet *TagSet) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r))
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", Error, err)
 	}
diff --git a/pkg/common/reader.go b/pkg/common/reader.go
new file mode 100644
index 0000000..34f52ea
--- /dev/null
+++ b/pkg/common/reader.go
@@ -0,0 +1,22 @@
+package common
+
+import (
+	"io"
+)
+
+// fullReader wraps io.Reader to fill every requested buffer completely.
+type fullReader struct {
+	source io.Reader
+}
+
+// FullReader makes io.Reader which never returns less bytes than requested without an error.
+// Underlying reader is allowed to return data by portions of any size, as io.Reader contract states.
+// Read returns io.EOF if no data left and io.ErrUnexpectedEOF if data finished before buffer filled.
+func FullReader(source io.Reader) io.Reader {
+	return &fullReader{source: source}
+}
+
+// Read fills p from underlying reader. Implements io.Reader.
+func (r *fullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(r.source, p)
+}
diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..9a8cb21 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -46,6 +46,8 @@ func NewIndex(knownTags ...Tag) Idx {
 func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var listLen uint8
 
+	reader = binutils.NewBinaryReader(common.FullReader(reader)) // short reads must not be padded silently
+
 	if listLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read length byte: %v", common.ErrUnmarshal, err)
 	}
diff --git a/pkg/dag/name.go b/pkg/dag/name.go
index 980b022..6399e9a 100644
--- a/pkg/dag/name.go
+++ b/pkg/dag/name.go
@@ -7,6 +7,8 @@ import (
 	"fmt"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 const (
@@ -29,6 +31,8 @@ type TagName string
 
 func (g *TagName) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagNameBytes []byte
+
+	reader = binutils.NewBinaryReader(common.FullReader(reader)) // short reads must not be padded silently
 	if tagNameBytes, err = reader.ReadBytesCount(tagNameLen); err != nil {
 		return fmt.Errorf("%w: tag name: read: %v", Error, err)
 	}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..4cb8c3b 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -6,6 +6,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet16 identifies Set16 related errors.
@@ -86,7 +88,7 @@ func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint16  uint16
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r))
 	if expectedLen, err = reader.ReadUint16(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..4c58c02 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -6,6 +6,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet8 identifies Set8 related errors.
@@ -86,7 +88,7 @@ func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r))
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
-- 
2.43.0


From cc9e25ccda66f09f634e2e13f0e5da72a102509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 02/28] fix: collections Find must not panic on sets longer
 than any stored

---
 pkg/storage/collection16.go | 4 ++++
 pkg/storage/collection8.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..2247795 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,6 +16,10 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such size stored
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
 		return 0, false
 	}
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..4e0036c 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,6 +15,10 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such size stored
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
 		return 0, false
 	}
-- 
2.43.0


From d9bbb043fe56a47ac09aa246ce5baa7351063a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 03/28] fix: refuse to write lists longer than their length
 field can hold

---
 internal/index/tagset_def.go   | 5 +++++
 internal/index/tagset_table.go | 4 ++++
 internal/index/variant_def.go  | 5 +++++
 internal/index/variant_idx.go  | 5 +++++
 pkg/dag/idx.go                 | 5 +++++
 pkg/storage/set16.go           | 5 +++++
 pkg/storage/set8.go            | 5 +++++
 7 files changed, 34 insertions(+)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 6aca404..08596d1 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -57,6 +58,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > math.MaxUint8 {
+		return fmt.Errorf("%w: tag set: too many tags: %d", Error, len(tagSet))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..2158eb1 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -57,6 +58,9 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+	if tagSetTable.Len() > math.MaxUint16 {
+		return fmt.Errorf("%w: too many tag sets: %d", Error, tagSetTable.Len())
+	}
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..fef63a4 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -27,6 +28,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > math.MaxUint8 {
+		return fmt.Errorf("%w: too many variants: %d", Error, len(t))
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..c1ed8f0 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -14,6 +15,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > math.MaxUint8 {
+		return fmt.Errorf("%w: too many variants tables: %d", Error, len(tagSetIndex))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index 9a8cb21..677ac1f 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,7 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -67,6 +68,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 {
+		return fmt.Errorf("%w: too many tags: %d", common.ErrMarshal, tagsIndex.Len())
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4cb8c3b..9104cd4 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,6 +3,7 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -60,6 +61,10 @@ func (set16 Set16) EqualTo(another Set16) bool {
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set16) > math.MaxUint16 {
+		return 0, fmt.Errorf("%w: writeTo: too many items: %d", ErrSet16, len(set16))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 4c58c02..9d44908 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -60,6 +61,10 @@ func (set8 Set8) EqualTo(another Set8) bool {
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set8) > math.MaxUint8 {
+		return 0, fmt.Errorf("%w: writeTo: too many items: %d", ErrSet8, len(set8))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
-- 
2.43.0


From 9c7a995d11e9be111a7a913d1ee78e9c77c424e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 04/28] fix: panic on identifiers overflow instead of reusing
 identifier of another item

---
 internal/index/tagset_table.go  |  6 +++++-
 internal/index/variant_table.go |  6 ++++++
 pkg/dag/idx.go                  |  5 +++++
 pkg/storage/collection16.go     |  8 ++++++++
 pkg/storage/collection8.go      |  8 ++++++++
 pkg/storage/table16.go          | 10 +++++++++-
 pkg/storage/table8.go           | 10 +++++++++-
 7 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 2158eb1..7b01f7c 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -89,7 +89,7 @@ func (tagSetTable TagSetTable) Find(item TagSet) (storageIdx TagSetSubID, found
 
 // Index returns 0-based TagSetSubID index of ids.Set16 in Table16 instance.
 // Returns index of existed item if found or of appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or no free identifiers left.
 func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 	var found bool
 
@@ -103,6 +103,10 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		return storageIdx
 	}
 
+	if len(*tagSetTable) > math.MaxUint16 {
+		panic("tag set table overflow")
+	}
+
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
 	*tagSetTable = append(*tagSetTable, item)
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..028ced2 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -61,6 +62,7 @@ func (variantsTable VariantsTable) Find(item TagSetIDCollection) (storageIdx Var
 
 // Index returns specified TagSetIDCollection instance ID in index.
 // If no such variants set found it will be registered before.
+// Panics if no free identifiers left.
 // Always return VariantSubID=0 if empty or nil TagSetIDCollection specified.
 func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx VariantSubID) {
 	var found bool
@@ -75,6 +77,10 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return storageIdx
 	}
 
+	if len(*variantsTable) > math.MaxUint16 {
+		panic("variants table overflow")
+	}
+
 	storageIdx = VariantSubID(len(*variantsTable))
 
 	*variantsTable = append(*variantsTable, item)
diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index 677ac1f..19f58e8 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -104,6 +104,7 @@ func (tagsIndex Idx) Find(name TagName) (id TagID, found bool) {
 
 // Index returns indexed ID.
 // Adds indexed to index if not indexed before.
+// Panics if no free identifiers left.
 func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 	var found bool
 
@@ -115,6 +116,10 @@ func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 		return id
 	}
 
+	if len(*tagsIndex) > math.MaxUint8 {
+		panic(fmt.Errorf("%w: too many tags: no identifier left for %v", ErrIndex, name))
+	}
+
 	id = TagID(len(*tagsIndex))
 	*tagsIndex = append(*tagsIndex, *NewTag(parent, name))
 
diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 2247795..0510699 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -1,5 +1,9 @@
 package storage // nolint:dupl
 
+import (
+	"math"
+)
+
 // Collection16 stores unique ids.Set16 items organized in Table16 storages where each storage
 // keeps sets of same sizes.
 // Each Collection16 item is addressable by unique ids.ID32
@@ -34,6 +38,10 @@ func (collection8x8 *Collection16) Index(item Set16) (indexedIdx ID32) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("set too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 4e0036c..d87f95a 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Collection8x8 stores unique ids.Set8 items in Table8 items where each Table8 stores sets of same sizes.
 // Each Collection8x8 item is addressable by unique ID16
 // which consists of Table8 ID8 item index in collection and ID8 element index in Table8 item.
@@ -33,6 +37,10 @@ func (collection8x8 *Collection8x8) Index(setItem Set8) (indexedIdx ID16) {
 	}
 
 	columnIdx := len(setItem) - 1
+	if columnIdx > math.MaxUint8 {
+		panic("set too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index d6b7ae9..e2bfba1 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table16 stores unique ids.Set16 lists having equal length.
 // It Uses its own ID16 index to address target sets.set16 stack in addition to address element in stack.
 // Used in Collection16 to store different sized sets organized into stacks of equal-sized sets.
@@ -19,7 +23,7 @@ func (table16 Table16) Find(item Set16) (ID16, bool) {
 
 // Index returns 0-based ids.ID16 index of ids.Set16 in Table16 instance.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or no free identifiers left.
 func (table16 *Table16) Index(item Set16) (id ID16) {
 	var found bool
 
@@ -33,6 +37,10 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		return id
 	}
 
+	if len(*table16) > math.MaxUint16 {
+		panic("table overflow")
+	}
+
 	id = ID16(len(*table16))
 
 	*table16 = append(*table16, item)
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index daafdc6..d69d864 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table8 stores upto 256 unique ids.Set8 lists having equal length.
 // Used in Collection8x8 to store different sized sets organized into stacks of equal-sized sets.
 type Table8 []Set8
@@ -18,7 +22,7 @@ func (table8 Table8) Find(item Set8) (ID8, bool) {
 
 // Index returns 0-based ids.ID8 index of ids.Set8 in Table8.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or no free identifiers left.
 func (table8 *Table8) Index(item Set8) (id ID8) {
 	var found bool
 
@@ -32,6 +36,10 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		return id
 	}
 
+	if len(*table8) > math.MaxUint8 {
+		panic("table overflow")
+	}
+
 	id = ID8(len(*table8))
 
 	*table8 = append(*table8, item)
-- 
2.43.0


From ea91d10f5834f6201f4df83c759f3a7c485c19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 05/28] fix: lookups must not modify index children maps

---
 internal/index/idx.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 015d506..9fc249f 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -204,11 +204,11 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
-	index.GetChildrenIDMap(0)
+	index.ensureChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
-		index.GetChildrenIDMap(item.Parent)
-		index.GetChildrenIDMap(nodeID)
+		index.ensureChildrenIDMap(item.Parent)
+		index.ensureChildrenIDMap(nodeID)
 		index.childrenMap[item.Parent][item.Letter] = nodeID
 		if item.Variants != 0 {
 			index.wordsCount++
@@ -314,13 +314,27 @@ func (index *Index) rootNode(letter rune) (root dag.Node) {
 // }
 
 // GetChildrenIDMap generates children nodes for Node specified by its ID.
+// It never changes index so it is safe to call it concurrently with other lookups.
 func (index *Index) GetChildrenIDMap(id dag.ID) (res dag.IdMap) {
 	var ok bool
 
 	if res, ok = index.childrenMap[id]; !ok {
-		index.childrenMap[id] = make(dag.IdMap)
+		return make(dag.IdMap)
 	}
-	return index.childrenMap[id]
+
+	return res
+}
+
+// ensureChildrenIDMap returns children map for Node specified by its ID ready to be filled with new children.
+func (index *Index) ensureChildrenIDMap(id dag.ID) (res dag.IdMap) {
+	var ok bool
+
+	if res, ok = index.childrenMap[id]; !ok {
+		res = make(dag.IdMap)
+		index.childrenMap[id] = res
+	}
+
+	return res
 }
 
 func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, error) {
@@ -338,8 +352,7 @@ func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, e
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
-		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
+		if nextItemID, ok = index.childrenMap[currentParentID][firstRune]; !ok {
 			node = index.GetItem(currentParentID)
 			if node == nil {
 				return nil, fmt.Errorf("%w: fetch: no node: `%s[%s]`", Error, string(runes[:currentIndex]), string(firstRune))
@@ -371,8 +384,7 @@ func (index *Index) FetchFromItem(parentID dag.ID, runes []rune) (dag.Node, erro
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
-		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
+		if nextItemID, ok = index.childrenMap[currentParentID][firstRune]; !ok {
 			node := index.GetItem(currentParentID)
 			if node == nil {
 				return nil, fmt.Errorf("%w: fetch: no node: `%s[%s]`", Error, string(runes[:currentIndex]), string(firstRune))
@@ -410,7 +422,7 @@ func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
 		}
 
 		rootLetter := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.ensureChildrenIDMap(currentParentID)
 		if nextItemID, ok = childrenIDMap[rootLetter]; !ok {
 			newRootItem := index.items.NewChild(currentParentID, rootLetter)
 			nextItemID = newRootItem.ID
-- 
2.43.0


From cc0722bc8829d3dac9dd7af9019aab2a3a650a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 06/28] fix: fill new item under the lock as items list could
 be reallocated concurrently

---
 internal/index/items.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/items.go b/internal/index/items.go
index c8d786f..7814fc3 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -73,6 +73,7 @@ func (items *Items) Extend(count int) {
 
 func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
 	items.mu.Lock() // lock items to ensure nextID will not be taken by another goroutine
+	defer items.mu.Unlock()
 
 	nextID := items.NextID()
 	currentLen := len(items.items)
@@ -94,7 +95,6 @@ func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
 	}
 
 	items.nextID += 1
-	items.mu.Unlock() // free items as nextID successfully acquired and list extended
 
 	items.items[nextID].ID = nextID
 	items.items[nextID].Parent = parentID
-- 
2.43.0


From d7c0c0064b5e91e4b9735b821d07ed35e963a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 07/28] fix: rebuild children map and words counter from
 scratch and without root item on index load

---
 internal/index/idx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 9fc249f..1c32c9a 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -204,8 +204,14 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
+	index.childrenMap = make(map[dag.ID]dag.IdMap)
+	index.wordsCount = 0
 	index.ensureChildrenIDMap(0)
 	for idx, item := range index.items.items {
+		if idx == 0 {
+			continue // root item is not a child of itself
+		}
+
 		nodeID := dag.ID(idx)
 		index.ensureChildrenIDMap(item.Parent)
 		index.ensureChildrenIDMap(nodeID)
-- 
2.43.0


From 6b0e78f01b7d76fba99ee8fd6f95e0cb41ab6404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 08/28] fix: adding empty tags list must not attach unrelated
 tag set

---
 internal/index/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..dba538e 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -51,6 +51,11 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	if len(newTagSet) == 0 {
+		return nil // nothing to attach
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
-- 
2.43.0


From 4910f2d8c0947b2a71ac871b430679d29c8a887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 09/28] fix: root node methods must not panic, node string must
 not split multibyte letters

---
 internal/index/node.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index dba538e..57caf31 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/amarin/gomorphy/pkg/dag"
 )
@@ -30,7 +31,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 		tag        dag.Tag
 	)
 
-	item = node.index.getItem(node.id)
+	if item = node.index.getItem(node.id); item == nil {
+		return make([]dag.TagSet, 0) // root node has no tag sets
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -56,6 +60,11 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 		return nil // nothing to attach
 	}
 
+	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
@@ -64,7 +73,6 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 		}
 	}
 
-	item := node.index.getItem(node.id)
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
 	if item.Variants == 0 {
 		node.index.wordsCount++
@@ -96,9 +104,14 @@ func (node *Node) Word() string {
 // String returns string representation of node. Implements fmt.Stringer.
 func (node *Node) String() string {
 	item := node.index.getItem(node.id)
-	w := node.Word()
+	if item == nil {
+		return "Node()"
+	}
+
+	letter := string(item.Letter)
+	prefix := strings.TrimSuffix(node.Word(), letter)
 
-	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
+	return "Node(" + prefix + "[" + letter + "]" + strings.TrimPrefix(item.String(), letter) + ")"
 }
 
 func newNode(index *Index, id dag.ID) *Node {
-- 
2.43.0


From c44d33635be409294395484592b8f945d7210542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 10/28] fix: TagSetIndex.TableIDs must return identifiers known
 to Get

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..ec78978 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -128,7 +128,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From 5b79671cd21b5973683c2617e8f16bacca0f50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 11/28] fix: unknown variant identifier must be reported, not
 cause panic

---
 internal/index/idx.go         |  8 ++++++--
 internal/index/variant_idx.go | 19 +++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 1c32c9a..9ed2ee7 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -594,7 +594,11 @@ func (index *Index) Optimize() {
 	logger.Infof("has %d possible tag sets", len(knownTagSets))
 }
 
-// Variants returns TagSet collection
+// Variants returns TagSet collection or error if no such collection known.
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
-	return index.collectionIdx.Get(id), err
+	if id != 0 && !index.collectionIdx.Has(id) {
+		return nil, fmt.Errorf("%w: no such variant: %d", Error, id)
+	}
+
+	return index.collectionIdx.Get(id), nil
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index c1ed8f0..e42d7ea 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -96,18 +96,21 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 	return tableNumber.Add(1).VariantID(itemIdx)
 }
 
-// Get returns set by index.
-func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
-	if storageIdx == 0 {
-		return make(TagSetIDCollection, 0)
-	}
+// Has returns true if specified VariantID present in index.
+func (tagSetIndex VariantsIndex) Has(storageIdx VariantID) bool {
+	tableIdx := int(storageIdx.TableNum()) - 1 // tables are numbered from 1
 
-	tableNumber := storageIdx.TableNum()
-	if tableNumber < 1 {
+	return tableIdx >= 0 && tableIdx < len(tagSetIndex) &&
+		int(storageIdx.CollectionTableID()) < len(tagSetIndex[tableIdx])
+}
+
+// Get returns set by index. Returns empty set if no such set indexed.
+func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
+	if !tagSetIndex.Has(storageIdx) {
 		return make(TagSetIDCollection, 0)
 	}
 
-	return tagSetIndex[tableNumber.Add(-1)].Get(storageIdx.CollectionTableID())
+	return tagSetIndex[storageIdx.TableNum().Add(-1)].Get(storageIdx.CollectionTableID())
 }
 
 // Table returns internal CollectionTable by its index.
-- 
2.43.0


From 54630c657207ff9a5888cdffa26db2035d369f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 12/28] fix: check identifiers entered by user against real
 bounds

---
 cmd/opencorpora_test/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 612221d..4f019a5 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -94,7 +94,7 @@ func processTag(logger logging.Logger, items ...string) error {
 			return fmt.Errorf("%w: expected int id: `%v`", ErrTag, arg)
 		}
 
-		if tagId >= tags.Len() {
+		if tagId < 0 || tagId >= tags.Len() {
 			return fmt.Errorf("%w: no such tag id: `%v`", ErrTag, arg)
 		}
 
@@ -137,7 +137,7 @@ func processSet(logger logging.Logger, items ...string) error {
 		if err != nil {
 			return fmt.Errorf("%w.%v: `%v`: int ID required", ErrSet, subCmdTable, items[2])
 		}
-		if tableID >= len(sets) {
+		if tableID < 0 || tableID >= len(sets) {
 			return fmt.Errorf("%w.%v: `%v`: no such set table", ErrSet, subCmdTable, tableID)
 		}
 		table := sets[tableID]
@@ -273,7 +273,7 @@ func processNode(logger logging.Logger, items ...string) error {
 			}
 			strNodeId = strconv.Itoa(int(node.Id()))
 		} else {
-			if nodeID >= idx.NodesCount() {
+			if nodeID < 0 || nodeID > idx.NodesCount() {
 				return fmt.Errorf("%w.%v: `%v`: no such node", ErrNode, subCmdInfo, strNodeId)
 			}
 
-- 
2.43.0


From ceb0e5b98da0ad6213316c9d0156ce5da004300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 13/28] fix: tag set number entered by user must not be
 truncated to another one

---
 cmd/opencorpora_test/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 4f019a5..1823fcb 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -151,7 +151,7 @@ func processSet(logger logging.Logger, items ...string) error {
 
 	default:
 		logger.Infof("%v.%v: looking tag set %v", cmdSet, subCmd, subCmd)
-		tsNumber, err := strconv.ParseInt(subCmd, 0, 0)
+		tsNumber, err := strconv.ParseUint(subCmd, 0, 32)
 		if err != nil {
 			return fmt.Errorf("%w.%v: expected int or hex set number", ErrSet, subCmd)
 		}
-- 
2.43.0


From 6c6051eb69d60a951c632a6386aaf92786927dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 14/28] fix: report inaccessible downloaded file instead of nil
 dereference

---
 pkg/opencorpora/loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9ed9735..b1dffaa 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -129,6 +129,12 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return true, nil // no file, update required
 	}
 
+	if err != nil {
+		loader.Warnf("file access: %v: %v", expectedFile, err)
+
+		return false, err
+	}
+
 	loader.Debugf("check remote %v", RemoteURL)
 	response, err := http.Head(RemoteURL)
 	if err != nil {
-- 
2.43.0


From e24c80683849fdb8aa27b3e4ae2f90d03eca0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 15/28] fix: create data path the loader is configured with

---
 pkg/opencorpora/loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index b1dffaa..0c0852f 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -174,7 +174,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return false, err
 	}
 
@@ -216,7 +216,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 		target     io.WriteCloser
 	)
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 3ae227b6ad094f1a5ccad3728d211b16ee871d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 16/28] fix: do not store body of failed response as dictionary

---
 pkg/opencorpora/loader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 0c0852f..23323ff 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -190,6 +190,10 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		}
 	}()
 
+	if response.StatusCode != http.StatusOK {
+		return false, fmt.Errorf("%w: download: unexpected response code %v", Error, response.StatusCode)
+	}
+
 	// Create a empty file
 	file, err := os.Create(loader.downloadedFilePath())
 	if err != nil {
-- 
2.43.0


From b7e9dd48f1b794bd3441a99acd606b6a02eae1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 17/28] fix: grammeme name could be reported by several
 portions of text

---
 pkg/opencorpora/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index b1f917a..5e8134b 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -216,7 +216,7 @@ func (parser *Parser) onGrammemeName() *elementProcessor {
 	return &elementProcessor{
 		processStart: ignoreElementStart,
 		processData: func(data string) error {
-			parser.currentGrammeme.Name = dag.TagName(data)
+			parser.currentGrammeme.Name += dag.TagName(data) // text could be reported by parts
 			return nil
 		},
 		processEnd: ignoreElementEnd,
-- 
2.43.0


From 582621000bd094fd440852d7c6fd1b7f9f4bdea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 18/28] fix: partially written files must not be mistaken for
 complete ones

---
 pkg/opencorpora/loader.go | 77 ++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 23323ff..66437fa 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -194,30 +194,49 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, fmt.Errorf("%w: download: unexpected response code %v", Error, response.StatusCode)
 	}
 
-	// Create a empty file
-	file, err := os.Create(loader.downloadedFilePath())
+	err = replaceFile(loader.downloadedFilePath(), func(file io.Writer) error {
+		_, copyErr := io.Copy(file, response.Body)
+
+		return copyErr
+	})
 	if err != nil {
 		return false, err
 	}
 
-	defer func() {
-		if file != nil {
-			_ = file.Close()
-		}
-	}()
+	return true, nil
+}
 
-	if _, err = io.Copy(file, response.Body); err != nil {
-		return false, err
+// replaceFile fills temporary file and puts it in place of required one only when it is written completely.
+// So interrupted write never leaves partially written file under required name.
+func replaceFile(filePath string, fill func(file io.Writer) error) (err error) {
+	tmpPath := filePath + ".tmp"
+
+	file, err := os.Create(tmpPath)
+	if err != nil {
+		return err
 	}
 
-	return true, nil
+	err = fill(file)
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(tmpPath, filePath)
+	}
+
+	if err != nil {
+		_ = os.Remove(tmpPath)
+	}
+
+	return err
 }
 
 func (loader Loader) UnpackUpdate() (err error) {
 	var (
 		source     io.ReadCloser
 		bzipSource io.Reader
-		target     io.WriteCloser
 	)
 
 	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
@@ -232,17 +251,11 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	bzipSource = bzip2.NewReader(source)
 
-	if target, err = os.Create(loader.unpackedFilePath()); err != nil {
-		return err
-	}
-
-	defer func() { _ = target.Close() }()
+	return replaceFile(loader.unpackedFilePath(), func(target io.Writer) error {
+		_, copyErr := io.Copy(target, bzipSource) // nolint:gosec
 
-	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
-		return err
-	}
-
-	return nil
+		return copyErr
+	})
 }
 
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
@@ -257,7 +270,7 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 
 	defer func() {
 		loader.Debugf("loading finished %v", fromFile)
-		if closeErr := reader.Close(); err != nil {
+		if closeErr := reader.Close(); closeErr != nil {
 			loader.Warnf("close index: %v", closeErr)
 		}
 
@@ -280,26 +293,11 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
-	var writer *binutils.BinaryWriter
-
 	loader.Info("save compiled index")
 
-	if writer, err = binutils.CreateFile(toFile); err != nil {
-		return fmt.Errorf("%w: create index: %v", Error, err)
-	}
-
 	defer func() {
-		loader.Debugf("finishing %v", toFile)
-		if closeErr := writer.Close(); err != nil {
-			loader.Warnf("close index: %v", closeErr)
-		}
-
 		if err != nil {
 			loader.Error(err.Error())
-
-			if removeErr := os.Remove(toFile); removeErr != nil {
-				loader.Warnf("remove incomplete index: %v", removeErr)
-			}
 		} else {
 			loader.Infof("compiled index saved at %v", toFile)
 		}
@@ -309,7 +307,10 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 	loader.Info("optimize index")
 	mainIndex.Optimize()
 	loader.Info("saving index")
-	if err = mainIndex.BinaryWriteTo(writer); err != nil {
+	err = replaceFile(toFile, func(file io.Writer) error {
+		return mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(file))
+	})
+	if err != nil {
 		return fmt.Errorf("%w: save index: %v", Error, err)
 	}
 
-- 
2.43.0


From 5d4d8429853e235780c0d07d60694cfc905ddc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 19/28] fix: resume update interrupted after download

---
 pkg/opencorpora/loader.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 66437fa..687e3c4 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -338,17 +338,31 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
+// isOutdated returns true if target file is missed or made before source file was changed.
+func (loader Loader) isOutdated(target string, source string) bool {
+	sourceStat, err := os.Stat(source)
+	if err != nil {
+		return false // nothing to make target from
+	}
+
+	targetStat, err := os.Stat(target)
+
+	return err != nil || targetStat.ModTime().Before(sourceStat.ModTime())
+}
+
 func (loader Loader) Update(forceRecompile bool) (err error) {
-	var updated, updateRequired, downloadedExists, unpackedExists bool
+	var updated, updateRequired, downloadedExists, unpackedExists, unpackedOutdated, compiledOutdated bool
 
 	loader.Info("check OpenCorpora updates")
 
 	updateRequired, err = loader.IsUpdateRequired()
 	downloadedExists = loader.IsDownloadExists()
 	unpackedExists = loader.IsUnpackedExists()
+	unpackedOutdated = loader.isOutdated(loader.unpackedFilePath(), loader.downloadedFilePath())
+	compiledOutdated = loader.isOutdated(loader.compiledFilePath(), loader.unpackedFilePath())
 
 	switch {
-	case err != nil && forceRecompile && unpackedExists:
+	case err != nil && forceRecompile && unpackedExists && !unpackedOutdated:
 		loader.Errorf("check update: %v, force recompile using previous unpacked file", err)
 		goto compile
 	case err != nil && forceRecompile && downloadedExists:
@@ -360,6 +374,16 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 	case !updateRequired:
 		loader.Info("lemmata up to date")
 
+		if unpackedOutdated {
+			loader.Info("previous update interrupted before unpack, resume")
+			goto unpack
+		}
+
+		if compiledOutdated {
+			loader.Info("previous update interrupted before compile, resume")
+			goto compile
+		}
+
 		if forceRecompile {
 			loader.Info("do recompile as force update required")
 			goto compile
-- 
2.43.0


From 7fc60c757088c0acbb950f48982bef037a41d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 20/28] fix: refuse to compile source without dictionary
 instead of producing empty index

---
 pkg/opencorpora/loader.go | 4 ++++
 pkg/opencorpora/parser.go | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 687e3c4..3c397a9 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -335,6 +335,10 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("parse: %w", err)
 	}
 
+	if err == nil && !parser.dictionaryParsed {
+		return fmt.Errorf("%w: parse: no dictionary in %v", Error, fromFile)
+	}
+
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index 5e8134b..11dd763 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -47,6 +47,8 @@ type Parser struct {
 	parsedForms     int // parsed lemma forms
 	logAverageSpeed int // report average parse speed each logAverageSpeed seconds
 
+	dictionaryParsed bool // dictionary element parsed up to its end
+
 	// max forms to parse.
 	// If !=0 parser will be stopped with ErrControlledStop after maximum maxLemmas lemmas forms parsing.
 	maxLemmas int
@@ -186,7 +188,11 @@ func (parser *Parser) onDictionary() *elementProcessor {
 			return parser.dictionary.processElem(parser, element)
 		},
 		processData: ignoreElementData,
-		processEnd:  nil,
+		processEnd: func(element xml.EndElement) error {
+			parser.dictionaryParsed = true
+
+			return nil
+		},
 	}
 }
 
-- 
2.43.0


From 3c4f88a80b2aa05dd8c39d2e21705cb845fb0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 21/28] fix: variants table must not panic on unknown
 identifiers

---
 internal/index/variant_table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 028ced2..740e882 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -88,8 +88,12 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 	return storageIdx
 }
 
-// Get returns TagSetIDCollection by its VariantSubID.
+// Get returns TagSetIDCollection by its VariantSubID. Returns empty collection if no such indexed.
 func (variantsTable VariantsTable) Get(storageIdx VariantSubID) TagSetIDCollection {
+	if int(storageIdx) >= len(variantsTable) {
+		return make(TagSetIDCollection, 0)
+	}
+
 	return variantsTable[storageIdx]
 }
 
-- 
2.43.0


From ab5585c550cf9e82fcddd32f54f998fd165fefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 22/28] Revert "fix: tag set number entered by user must not be
 truncated to another one"

This reverts commit ceb0e5b98da0ad6213316c9d0156ce5da004300d.
---
 cmd/opencorpora_test/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 1823fcb..4f019a5 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -151,7 +151,7 @@ func processSet(logger logging.Logger, items ...string) error {
 
 	default:
 		logger.Infof("%v.%v: looking tag set %v", cmdSet, subCmd, subCmd)
-		tsNumber, err := strconv.ParseUint(subCmd, 0, 32)
+		tsNumber, err := strconv.ParseInt(subCmd, 0, 0)
 		if err != nil {
 			return fmt.Errorf("%w.%v: expected int or hex set number", ErrSet, subCmd)
 		}
-- 
2.43.0


From c66597980a101f66a542b7ef541b8cf45a757a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 23/28] Revert "fix: check identifiers entered by user against
 real bounds"

This reverts commit 54630c657207ff9a5888cdffa26db2035d369f38.
---
 cmd/opencorpora_test/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 4f019a5..612221d 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -94,7 +94,7 @@ func processTag(logger logging.Logger, items ...string) error {
 			return fmt.Errorf("%w: expected int id: `%v`", ErrTag, arg)
 		}
 
-		if tagId < 0 || tagId >= tags.Len() {
+		if tagId >= tags.Len() {
 			return fmt.Errorf("%w: no such tag id: `%v`", ErrTag, arg)
 		}
 
@@ -137,7 +137,7 @@ func processSet(logger logging.Logger, items ...string) error {
 		if err != nil {
 			return fmt.Errorf("%w.%v: `%v`: int ID required", ErrSet, subCmdTable, items[2])
 		}
-		if tableID < 0 || tableID >= len(sets) {
+		if tableID >= len(sets) {
 			return fmt.Errorf("%w.%v: `%v`: no such set table", ErrSet, subCmdTable, tableID)
 		}
 		table := sets[tableID]
@@ -273,7 +273,7 @@ func processNode(logger logging.Logger, items ...string) error {
 			}
 			strNodeId = strconv.Itoa(int(node.Id()))
 		} else {
-			if nodeID < 0 || nodeID > idx.NodesCount() {
+			if nodeID >= idx.NodesCount() {
 				return fmt.Errorf("%w.%v: `%v`: no such node", ErrNode, subCmdInfo, strNodeId)
 			}
 
-- 
2.43.0


From 66f1695738e4575f2c9c5539aa4c4f6ff76daf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 24/28] fix: element name with dots must not pass for a path of
 elements

---
 pkg/opencorpora/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index 11dd763..dcb6665 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -3,6 +3,7 @@ package opencorpora
 import (
 	"encoding/xml"
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/amarin/logging"
@@ -112,7 +113,7 @@ func (parser *Parser) ProcessStartElement(element xml.StartElement) error {
 	p, ok := parser.parsers[parser.currentPath]
 
 	switch {
-	case !ok:
+	case !ok || strings.Contains(element.Name.Local, "."): // dot separates elements in path
 		return fmt.Errorf("%w: unexpected start: `%v`", Error, parser.currentPath)
 	case p.processStart == nil:
 		parser.Info("> " + parser.currentPath)
-- 
2.43.0


From 8a6af1c3094b4a356280e07ac8f393f4fda2aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 25/28] fix: set stores neither sort nor keep the slice of the
 caller

Table8, Table16, TagSetTable and VariantsTable sorted the set passed to Index in place
and stored the same slice. A caller using its buffer again changed the stored set: an
identifier then stood for another set, and equal sets got two identifiers.
---
 internal/index/tagset_table.go  | 3 ++-
 internal/index/variant_idx.go   | 3 ---
 internal/index/variant_table.go | 3 ++-
 pkg/storage/table16.go          | 3 ++-
 pkg/storage/table8.go           | 3 ++-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 7b01f7c..4aebec1 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -97,7 +97,8 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		panic("empty set")
 	}
 
-	item.Sort() // sort item before find or adding to index.
+	item = append(TagSet(nil), item...) // specified set stays with the caller, it is neither sorted nor kept.
+	item.Sort()                         // sort item before find or adding to index.
 
 	if storageIdx, found = tagSetTable.Find(item); found {
 		return storageIdx
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index e42d7ea..78e72f9 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -3,7 +3,6 @@ package index
 import (
 	"fmt"
 	"math"
-	"sort"
 
 	"github.com/amarin/binutils"
 )
@@ -80,8 +79,6 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 		return 0
 	}
 
-	sort.Sort(item)
-
 	tableNumber := CollectionTableNumber(len(item) - 1)
 	if int(tableNumber) >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 740e882..0334c30 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -71,7 +71,8 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return 0 // zero index means no data
 	}
 
-	sort.Sort(item) // sort item before find or adding to index to compare and search easy.
+	item = append(TagSetIDCollection(nil), item...) // specified collection stays with the caller, it is neither sorted nor kept.
+	sort.Sort(item)                                 // sort item before find or adding to index to compare and search easy.
 
 	if storageIdx, found = variantsTable.Find(item); found {
 		return storageIdx
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index e2bfba1..ff00e00 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -31,7 +31,8 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		panic("empty set")
 	}
 
-	item.Sort() // sort item before find or adding to index.
+	item = append(Set16(nil), item...) // specified set stays with the caller, it is neither sorted nor kept.
+	item.Sort()                        // sort item before find or adding to index.
 
 	if id, found = table16.Find(item); found {
 		return id
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index d69d864..e2b77f9 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -30,7 +30,8 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		panic("empty set")
 	}
 
-	item.Sort() // sort item before find or adding to index.
+	item = append(Set8(nil), item...) // specified set stays with the caller, it is neither sorted nor kept.
+	item.Sort()                       // sort item before find or adding to index.
 
 	if id, found = table8.Find(item); found {
 		return id
-- 
2.43.0


From ca8ffce827af3398a6655ad50d326a49daec5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 26/28] fix: updates running at the same time write temporary
 files of their own

---
 pkg/opencorpora/loader.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 3c397a9..6f6227c 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -208,14 +208,14 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 
 // replaceFile fills temporary file and puts it in place of required one only when it is written completely.
 // So interrupted write never leaves partially written file under required name.
+// Each call uses temporary file of its own, as several updates could be running at the same time.
 func replaceFile(filePath string, fill func(file io.Writer) error) (err error) {
-	tmpPath := filePath + ".tmp"
-
-	file, err := os.Create(tmpPath)
+	file, err := createTemporary(filePath)
 	if err != nil {
 		return err
 	}
 
+	tmpPath := file.Name()
 	err = fill(file)
 
 	if closeErr := file.Close(); err == nil {
@@ -233,6 +233,18 @@ func replaceFile(filePath string, fill func(file io.Writer) error) (err error) {
 	return err
 }
 
+// createTemporary creates new file beside specified one.
+func createTemporary(filePath string) (file *os.File, err error) {
+	for num := 0; ; num++ {
+		tmpPath := fmt.Sprintf("%v.%d.tmp", filePath, num)
+
+		file, err = os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o666)
+		if !errors.Is(err, os.ErrExist) {
+			return file, err
+		}
+	}
+}
+
 func (loader Loader) UnpackUpdate() (err error) {
 	var (
 		source     io.ReadCloser
-- 
2.43.0


From 1ef41b4a2eef0d6ee6d8064cea6dbad3ccea06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:36 +0000
Subject: [PATCH 27/28] fix: the number of words stays right when no
 combination identifiers are left

---
 internal/index/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 57caf31..294f38c 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -74,10 +74,11 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
+	variants := node.index.collectionIdx.Index(collection) // panics if no identifiers left, nothing is changed then.
 	if item.Variants == 0 {
 		node.index.wordsCount++
 	}
-	item.Variants = node.index.collectionIdx.Index(collection)
+	item.Variants = variants
 
 	return nil
 }
-- 
2.43.0


From f2a3df4f3a1b66244cf06f8569cf892e29236622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 28/28] fix: tag sets and combinations too long to be numbered
 are refused instead of aliased

---
 internal/index/tagset_index.go | 6 ++++++
 internal/index/variant_idx.go  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index ec78978..5b7bcd6 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/binutils"
 
@@ -104,12 +105,17 @@ func (tagSetIndex *TagSetIndex) Find(item TagSet) (storageIdx TagSetID, found bo
 // Index returns specified TagSet ID in index.
 // If no such TagSet registered before, it will be indexed first.
 // To check if TagSet present in index without registering use Find instead.
+// Panics if specified set is too long or no free identifiers left.
 func (tagSetIndex *TagSetIndex) Index(item TagSet) (storageIdx TagSetID) {
 	if len(item) == 0 {
 		return 0 // empty set means no data
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("tag set too long")
+	}
+
 	if columnIdx >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
 
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 78e72f9..4fd7c8a 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -74,11 +74,16 @@ func (tagSetIndex VariantsIndex) Find(item TagSetIDCollection) (storageIdx Varia
 }
 
 // Index returns 0-based index of set in Collection8x8 array.
+// Panics if specified set is too long or no free identifiers left.
 func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx VariantID) {
 	if len(item) == 0 {
 		return 0
 	}
 
+	if len(item) > math.MaxUint16 { // tables are numbered from 1
+		panic("variants too long")
+	}
+
 	tableNumber := CollectionTableNumber(len(item) - 1)
 	if int(tableNumber) >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
-- 
2.43.0

