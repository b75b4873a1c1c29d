From 3bfcbef773b559c0f884327d5fbb012bb35a9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 01/37] fix: keep a copy of the data given to Write until it is
 committed

---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..475bdb7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -361,7 +361,9 @@ func (app *application) ReadAllByHashes(context uint, hashes []hash.Hash) ([][]b
 // Write writes data to a context
 func (app *application) Write(context uint, hash hash.Hash, data []byte, kind uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(data).WithKind(kind).Now()
+		// keep a copy of the data, the caller might re-use its slice before the commit:
+		copied := append([]byte{}, data...)
+		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(copied).WithKind(kind).Now()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 3d3777c73d425889894ef7e3858b7565500e8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 02/37] fix: refuse to commit a context with no written content
 instead of panicking

---
 libs/databases/infrastructure/files/application.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 475bdb7..a9d4814 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -424,6 +424,11 @@ func (app *application) updateReference(context uint) (references.Reference, err
 			builder.WithParent(refCommit.Hash())
 		}
 
+		if len(pContext.contentList) <= 0 {
+			str := fmt.Sprintf("the given context (%d) contains no written content and therefore cannot be comitted", context)
+			return nil, errors.New(str)
+		}
+
 		blocks := [][]byte{}
 		for _, oneContent := range pContext.contentList {
 			// add the hash in the blocks for the commit values:
-- 
2.43.0


From 10685d4c10d23f04dea87bab46f8bc55adb30624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 03/37] fix: clear the written content of a context once it is
 committed

---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a9d4814..ebc5d8a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -408,6 +408,7 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
-- 
2.43.0


From d0fe5cc2058baa2efa15d9aa78881101af0a56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 04/37] fix: never give a new context the identifier of another
 open context

---
 libs/databases/infrastructure/files/application.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index ebc5d8a..50e7bc7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -150,9 +150,19 @@ func (app *application) Open(name string) (*uint, error) {
 	// create a Lock instance on the path:
 	pLock := fslock.New(path)
 
+	// find an identifier that is not used by another open context:
+	identifier := uint(len(app.contexts))
+	for {
+		if _, ok := app.contexts[identifier]; !ok {
+			break
+		}
+
+		identifier++
+	}
+
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  identifier,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
-- 
2.43.0


From dba1075a33598b0b785cf7994575e1aebfa4752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 05/37] fix: copy all the committed data on commit, when its
 size is not a multiple of the chunk size

---
 libs/databases/infrastructure/files/application.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 50e7bc7..d13c386 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -628,16 +628,14 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
-		contentSize := pInfo.Size() - int64(context.dataOffset)
-		chunkSize := app.makeChunkSize(uint(contentSize))
-
-		for {
+		remaining := context.reference.ContentKeys().Next()
+		for remaining > 0 {
 			// read the file at offset:
+			chunkSize := app.makeChunkSize(uint(remaining))
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			if chunkSize != uint(amountRead) {
@@ -648,12 +646,13 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			// write content on destination:
 			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
 			readOffset += int64(amountRead)
 			writeOffset += int64(amountRead)
+			remaining -= int64(amountRead)
 		}
 	}
 
-- 
2.43.0


From 69f126da517dc0ea4fa3a1647369e9d4e262b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 06/37] fix: fail the commit when the written data cannot be
 saved on disk

---
 libs/databases/infrastructure/files/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index d13c386..91b6549 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -661,7 +661,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
-- 
2.43.0


From ef00b9ae030bda050d5ad53d11f78318fb781c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 07/37] fix: replace the database in a single step on commit,
 so that it never disappears

---
 .../infrastructure/files/application.go       | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 91b6549..a97bfae 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -558,38 +558,24 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// open the new source connection:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
-	err = os.Rename(destinationPath, sourcePath)
+	pNewConn, err := os.Open(destinationPath)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	// delete the backup file:
-	err = os.Remove(backupPath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// re-open the source connection:
-	pNewConn, err := os.Open(sourcePath)
+	// replace the source database by the destination database, in 1 step:
+	err = os.Rename(destinationPath, sourcePath)
 	if err != nil {
+		pNewConn.Close()
 		return nil, nil, err
 	}
 
+	// the database is now comitted, so delete the backup file and close the previous connection:
+	os.Remove(backupPath)
+	context.pConn.Close()
 	return pNewConn, pDataOffset, nil
 }
 
-- 
2.43.0


From 272fed7e6f3ea5794262478b69964870f3d9bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 08/37] fix: refuse to commit over a database that another
 session modified

---
 .../infrastructure/files/application.go       | 51 +++++++++++++------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a97bfae..44b58ca 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -135,15 +135,17 @@ func (app *application) Open(name string) (*uint, error) {
 		}
 	}
 
-	reference, offset, err := app.retrieveReference(name)
+	// open the connection:
+	path := filepath.Join(app.dirPath, name)
+	pConn, err := os.Open(path)
 	if err != nil {
 		return nil, err
 	}
 
-	// open the connection:
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
+	// read the reference on the same connection, the file might be replaced by another session:
+	reference, offset, err := app.retrieveReference(pConn)
 	if err != nil {
+		pConn.Close()
 		return nil, err
 	}
 
@@ -183,15 +185,7 @@ func (app *application) makeChunkSize(length uint) uint {
 	return app.readChunkSize
 }
 
-func (app *application) retrieveReference(name string) (references.Reference, uint, error) {
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	defer pConn.Close()
-
+func (app *application) retrieveReference(pConn *os.File) (references.Reference, uint, error) {
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
@@ -528,15 +522,21 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
+	// create the source path:
+	sourcePath := filepath.Join(app.dirPath, context.name)
+
+	// make sure another session did not replace the database since the context was opened:
+	err = app.verifySource(context, sourcePath)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// write data on the destination file:
 	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	// create the source path:
-	sourcePath := filepath.Join(app.dirPath, context.name)
-
 	// create the backup path:
 	backupFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.bckExtension)
 	backupPath := filepath.Join(app.dirPath, backupFile)
@@ -579,6 +579,25 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	return pNewConn, pDataOffset, nil
 }
 
+func (app *application) verifySource(context *context, sourcePath string) error {
+	pathInfo, err := os.Stat(sourcePath)
+	if err != nil {
+		return err
+	}
+
+	connInfo, err := context.pConn.Stat()
+	if err != nil {
+		return err
+	}
+
+	if !os.SameFile(pathInfo, connInfo) {
+		str := fmt.Sprintf("the database (name: %s) was modified by another session since the context was opened", context.name)
+		return errors.New(str)
+	}
+
+	return nil
+}
+
 func (app *application) writeDataAndReferenceOnDestinationFile(context *context, updatedReference references.Reference) (*uint, error) {
 	// destination path:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
-- 
2.43.0


From 15768a5ba33d382fe47794fb8e2236585a9a4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 09/37] fix: refuse malformed leaf sizes instead of panicking
 when decoding hash trees

---
 libs/cryptography/domain/hashtrees/leaf_adapter.go  |  8 +++++++-
 .../cryptography/domain/hashtrees/leaves_adapter.go | 13 +++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..6f869e9 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -154,7 +154,13 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 		return nil, errors.New(str)
 	}
 
-	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	leftBytesLength := binary.LittleEndian.Uint64(content[:8])
+	if leftBytesLength > uint64(contentLength-8) {
+		str := fmt.Sprintf("the left Leaf of the ParentLeaf instance was expected to contain %d bytes, but the content only contains %d bytes", leftBytesLength, contentLength)
+		return nil, errors.New(str)
+	}
+
+	leftLength := int(leftBytesLength)
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..6309a04 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,9 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
-		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
+		if contentLength < lengthEndsOn {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Leaf instance, %d provided", lengthEndsOn, contentLength)
+			return nil, errors.New(str)
+		}
+
+		leafLength := binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn])
+		if leafLength > uint64(contentLength-lengthEndsOn) {
+			str := fmt.Sprintf("the Leaf instance was expected to contain %d bytes, %d provided", leafLength, contentLength-lengthEndsOn)
+			return nil, errors.New(str)
+		}
 
-		endsOn := lengthEndsOn + leafLength
+		endsOn := lengthEndsOn + int(leafLength)
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e9cf4c32faaf2f58e7ad57a8a27306aa4edc774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 10/37] fix: refuse malformed sizes instead of panicking when
 decoding contents

---
 libs/databases/domain/contents/adapter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/databases/domain/contents/adapter.go b/libs/databases/domain/contents/adapter.go
index 69ca82a..762d4ca 100644
--- a/libs/databases/domain/contents/adapter.go
+++ b/libs/databases/domain/contents/adapter.go
@@ -59,7 +59,16 @@ func (app *adapter) ToInstance(content []byte) (Contents, error) {
 		}
 
 		sizeDelimiter := 8
+		if len(remaining) < sizeDelimiter {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Content instance, %d provided", sizeDelimiter, len(remaining))
+			return nil, errors.New(str)
+		}
+
 		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
+		if size > uint64(len(remaining)-sizeDelimiter) {
+			str := fmt.Sprintf("the Content instance was expected to contain %d bytes, %d provided", size, len(remaining)-sizeDelimiter)
+			return nil, errors.New(str)
+		}
 
 		contentDelimiter := sizeDelimiter + int(size)
 		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
-- 
2.43.0


From 2e230c333027840ef39d06d366007b32285e027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 11/37] fix: refuse malformed sizes instead of panicking when
 decoding references and commits

---
 libs/databases/domain/references/adapter.go   | 19 +++++++++++++------
 .../domain/references/commit_adapter.go       | 14 ++++++++++++++
 .../domain/references/commits_adapter.go      | 14 ++++++++++++--
 .../domain/references/contentkeys_adapter.go  |  9 +++++++--
 4 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..cc1f256 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,25 +61,32 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
-	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
-	if contentLength < contentKeysBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
+	if contentKeysBytesLength > uint64(contentLength)-contentKeysBytesLengthDelimiter {
+		str := fmt.Sprintf("the ContentKeys of the Reference instance were expected to contain %d bytes, but the content only contains %d bytes", contentKeysBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
+
 	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
 	if err != nil {
 		return nil, err
 	}
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
+	if uint64(contentLength) < commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesLengthDelimiter, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
-	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
-	if contentLength < commitBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
+	if commitBytesLength > uint64(contentLength)-commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the Commits of the Reference instance were expected to contain %d bytes, but the content only contains %d bytes", commitBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
+
 	commits, err := app.commitsAdapter.ToCommits(content[commitBytesLengthDelimiter:commitBytesDelimiter])
 	if err != nil {
 		return nil, err
diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..78579c2 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -84,6 +84,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
 
+	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {
+		str := fmt.Sprintf("the values of the Commit instance were expected to contain %d bytes, but the content only contains %d bytes", valueBytesAmount, contentLength)
+		return nil, errors.New(str)
+	}
+
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
 	if err != nil {
@@ -96,7 +101,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the proof size of the Commit instance, %d provided", proofBytesLengthDelimiter, len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if proofBytesLength > uint64(len(remaining)-proofBytesLengthDelimiter) {
+				str := fmt.Sprintf("the proof of the Commit instance was expected to contain %d bytes, %d provided", proofBytesLength, len(remaining)-proofBytesLengthDelimiter)
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..9dbd36c 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -59,9 +59,19 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 			break
 		}
 
+		if amount < 8 {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Commit instance, %d provided", 8, amount)
+			return nil, errors.New(str)
+		}
+
 		lengthDelimiter := index + 8
-		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
-		contentDelimiter := lengthDelimiter + length
+		length := binary.LittleEndian.Uint64(content[index:lengthDelimiter])
+		if length > uint64(amount-8) {
+			str := fmt.Sprintf("the Commit instance was expected to contain %d bytes, %d provided", length, amount-8)
+			return nil, errors.New(str)
+		}
+
+		contentDelimiter := lengthDelimiter + int(length)
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
 			return nil, err
diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..8d9ee80 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -53,8 +53,13 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 	}
 
 	list := []ContentKey{}
-	length := int(binary.LittleEndian.Uint64(content[:8]))
-	for i := 0; i < length; i++ {
+	length := binary.LittleEndian.Uint64(content[:8])
+	if length > uint64((len(content)-8)/contentKeySize) {
+		str := fmt.Sprintf("the content was expected to contain %d ContentKey instances, but only contains %d bytes", length, len(content))
+		return nil, errors.New(str)
+	}
+
+	for i := 0; i < int(length); i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
 		ins, err := app.adapter.ToContentKey(content[beginsOn:endsOn])
-- 
2.43.0


From 44e32389d7421401777a6e1ec81de70c7ac38fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 12/37] fix: fail to open a database whose header cannot be
 read instead of treating it as empty

---
 libs/databases/infrastructure/files/application.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 44b58ca..616b315 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -189,7 +189,12 @@ func (app *application) retrieveReference(pConn *os.File) (references.Reference,
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err != nil && !errors.Is(err, io.EOF) {
+		return nil, 0, err
+	}
+
+	// the database is empty:
+	if refAmount <= 0 {
 		return nil, 0, nil
 	}
 
-- 
2.43.0


From 308a78a8f9f928e3e3718036bb4ef63134f942a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 13/37] fix: refuse a reference that does not fit in the
 database file instead of crashing

---
 .../infrastructure/files/application.go          | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 616b315..4f523db 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -203,8 +203,20 @@ func (app *application) retrieveReference(pConn *os.File) (references.Reference,
 		return nil, 0, errors.New(str)
 	}
 
-	// convert the reference length to uint64:
-	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
+	// make sure the reference fits in the file:
+	refBytesLength := binary.LittleEndian.Uint64(refLengthBytes)
+	fileInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	if refBytesLength <= 0 || refBytesLength > uint64(fileInfo.Size()-expectedReferenceBytesLength) {
+		str := fmt.Sprintf("the reference was expected to contain %d bytes, but the database file only contains %d bytes", refBytesLength, fileInfo.Size())
+		return nil, 0, errors.New(str)
+	}
+
+	// convert the reference length to int:
+	refLength := int(refBytesLength)
 
 	// read the reference data:
 	refAllBytes := []byte{}
-- 
2.43.0


From 2fddf190a8b70c1d3380b3937d674f2d81ed90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 14/37] fix: refuse to read a pointer that is outside the
 database file

---
 libs/databases/infrastructure/files/application.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 4f523db..181377d 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -312,6 +312,19 @@ func (app *application) Read(context uint, pointer references.Pointer) ([]byte,
 	if pContext, ok := app.contexts[context]; ok {
 		offset := pContext.dataOffset + pointer.From()
 		length := pointer.Length()
+
+		// make sure the pointer is inside the file:
+		fileInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		size := uint(fileInfo.Size())
+		if pContext.dataOffset > size || pointer.From() > size-pContext.dataOffset || length > size-offset {
+			str := fmt.Sprintf("the pointer (from: %d, length: %d) is outside the database file, which contains %d bytes", pointer.From(), length, size)
+			return nil, errors.New(str)
+		}
+
 		contentBytes := make([]byte, length)
 		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
 		if err != nil {
-- 
2.43.0


From 21b9189e6b02f687f2b3668a1e5f6d61dce6a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 15/37] fix: refuse to build a hash tree without blocks instead
 of panicking, and never write in the given blocks

---
 libs/cryptography/domain/hashtrees/builder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..762039a 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -70,16 +70,17 @@ func (app *builder) Now() (HashTree, error) {
 		return createHashTree(*app.pHead, app.parent), nil
 	}
 
-	if app.blocks == nil {
+	if len(app.blocks) <= 0 {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
 
-	if len(app.blocks) <= 1 {
-		app.blocks = append(app.blocks, []byte(""))
+	blocks := append([][]byte{}, app.blocks...)
+	if len(blocks) <= 1 {
+		blocks = append(blocks, []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-	for _, oneData := range app.blocks {
+	for _, oneData := range blocks {
 		oneHash, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 007a7d6e964d48377c5f9a791b29261e2eddf41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 16/37] fix: use each data block exactly once when ordering
 them from a hash tree

---
 libs/cryptography/domain/hashtrees/adapter.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/adapter.go b/libs/cryptography/domain/hashtrees/adapter.go
index fdd8ca4..ea14afe 100644
--- a/libs/cryptography/domain/hashtrees/adapter.go
+++ b/libs/cryptography/domain/hashtrees/adapter.go
@@ -96,7 +96,7 @@ func (app *adapter) ToCompact(ins HashTree) (Compact, error) {
 
 // ToOrder takes an hashtree and mixed data and re-order the data according to the hashTree
 func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range mixed {
 		hsh, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -104,7 +104,7 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
@@ -116,8 +116,10 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 	list := leaves.Leaves()
 	for _, oneLeaf := range list {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if datas := hashed[leafHashAsString]; len(datas) > 0 {
+			// each data block can only be used once:
+			out = append(out, datas[0])
+			hashed[leafHashAsString] = datas[1:]
 			continue
 		}
 
-- 
2.43.0


From 44d71c4894efd909a31f372ee06d7b8ad59c35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 17/37] fix: keep a token in the parsing stack until the token
 that added it is parsed

---
 libs/asts/applications/application.go | 35 +++++++++++++++------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..3771ff7 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -511,7 +511,8 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
 	tokenName := token.Name()
-	if _, ok := stackMap[tokenName]; !ok {
+	_, isInStack := stackMap[tokenName]
+	if !isInStack {
 		stackMap[tokenName] = &stack{
 			token: token,
 			lines: map[int][]byte{},
@@ -520,7 +521,11 @@ func (app *application) token(token grammars.Token, stackMap map[string]*stack,
 
 	tokenBlock := token.Block()
 	block, remaining, retStackMap, err := app.block(token, stackMap, tokenBlock, escape, channels, isReverse, prevData, currentData)
-	delete(stackMap, tokenName)
+	if !isInStack {
+		// the token that was added to the stack first is the one that removes it:
+		delete(stackMap, tokenName)
+	}
+
 	if err != nil {
 		return nil, nil, err
 	}
@@ -589,23 +594,14 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 	currentStack := stackMap
 
 	for idx, oneLine := range lines {
-		// if we already went through this line, with the same data, in the stack, skip it to avoid infinite loops:
-		if _, ok := currentStack[tokenName]; ok {
-			if data, ok := currentStack[tokenName].lines[idx]; ok {
-				if bytes.Compare(remaining, data) == 0 {
-					continue
-				}
-
-			}
-		}
-
-		if _, ok := currentStack[tokenName]; !ok {
-			currentStack[tokenName] = &stack{
-				token: token,
-				lines: map[int][]byte{},
+		// if we already are in this line, with the same data, in the stack, skip it to avoid infinite loops:
+		if data, ok := currentStack[tokenName].lines[idx]; ok {
+			if bytes.Compare(remaining, data) == 0 {
+				continue
 			}
 		}
 
+		parentData, isParentLine := currentStack[tokenName].lines[idx]
 		currentStack[tokenName].lines[idx] = remaining
 
 		// if the line is in reverse:
@@ -704,6 +700,13 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 
 		// the line is NOT in reverse:
 		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
+
+		// the line is not in the stack anymore:
+		delete(currentStack[tokenName].lines, idx)
+		if isParentLine {
+			currentStack[tokenName].lines[idx] = parentData
+		}
+
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From b1cb2ed3488920e18450dc7ada698be4abfb5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 18/37] fix: verify each element of a line with its own
 cardinality when a name is used many times

---
 libs/asts/domain/trees/line.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libs/asts/domain/trees/line.go b/libs/asts/domain/trees/line.go
index 7af697c..92dadac 100644
--- a/libs/asts/domain/trees/line.go
+++ b/libs/asts/domain/trees/line.go
@@ -95,8 +95,7 @@ func (obj *line) IsSuccessful() bool {
 				continue
 			}
 
-			requestedName := requestedElement.Name()
-			element, err := obj.elements.Fetch(requestedName)
+			element, err := obj.fetch(oneContainer)
 			if err != nil {
 				return false
 			}
@@ -115,8 +114,7 @@ func (obj *line) IsSuccessful() bool {
 				requestedOccurences += oneElement.Occurences()
 			}
 
-			requestedName := compose.Name()
-			element, err := obj.elements.Fetch(requestedName)
+			element, err := obj.fetch(oneContainer)
 			if err != nil {
 				return false
 			}
@@ -130,3 +128,15 @@ func (obj *line) IsSuccessful() bool {
 
 	return true
 }
+
+// fetch returns the element of the given container, since the same name can be used many times in a line
+func (obj *line) fetch(container grammars.Container) (Element, error) {
+	list := obj.elements.List()
+	for _, oneElement := range list {
+		if oneElement.HasGrammar() && oneElement.Grammar() == container {
+			return oneElement, nil
+		}
+	}
+
+	return obj.elements.Fetch(container.Name())
+}
-- 
2.43.0


From 8767610c410ab37ab794e998eb1c8316c4da43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 19/37] fix: match the values of a compose in a line with the
 data, once per occurence

---
 libs/asts/applications/application.go | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 3771ff7..be44fe0 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -746,30 +746,28 @@ func (app *application) line(tokenName string, stackMap map[string]*stack, line
 			elementsList := compose.List()
 			for _, oneElement := range elementsList {
 				grValue := oneElement.Value()
-				value, rem, retStack, err := app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, remaining)
-				if err != nil {
-					return nil, nil, nil, err
-				}
+				occurences := int(oneElement.Occurences())
+				for i := 0; i < occurences; i++ {
+					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentBuilder := app.treeContentBuilder.Create()
-				if value != nil {
-					contentBuilder.WithValue(value)
-				}
+					if value == nil {
+						str := fmt.Sprintf("the compose (name: %s) was expecting the value (name: %s, number: %d)", compose.Name(), grValue.Name(), grValue.Number())
+						return nil, nil, nil, errors.New(str)
+					}
 
-				contentIns, err := contentBuilder.Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+					contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentsList := []trees.Content{}
-				occurences := int(oneElement.Occurences())
-				for i := 0; i < occurences; i++ {
 					contentsList = append(contentsList, contentIns)
+					currentStack = retStack
+					previousData = remaining
+					remaining = rem
 				}
-
-				currentStack = retStack
-				previousData = remaining
-				remaining = rem
 			}
 
 			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-- 
2.43.0


From 74d20767d4a376571d4de29026338b1a0d9967ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 20/37] fix: keep the remaining data and the suffix of the tree
 of an external grammar

---
 libs/asts/applications/application.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index be44fe0..d387577 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -583,7 +583,16 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 	}
 
 	treeBlock := treeIns.Block()
-	return app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock).Now()
+	treeBuilder := app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock)
+	if treeIns.HasSuffix() {
+		treeBuilder.WithSuffix(treeIns.Suffix())
+	}
+
+	if treeIns.HasRemaining() {
+		treeBuilder.WithRemaining(treeIns.Remaining())
+	}
+
+	return treeBuilder.Now()
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
-- 
2.43.0


From 9e1a622be3458fc0775da9a4dd1356540d6dc3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 21/37] fix: stop an everything where its exception matches,
 and take each escaped exception without panicking at the end of the data

---
 libs/asts/applications/application.go | 199 ++++++++++++++------------
 libs/asts/applications/escaped.go     |   6 +
 2 files changed, 111 insertions(+), 94 deletions(-)
 create mode 100644 libs/asts/applications/escaped.go

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index d387577..5e8d938 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -597,6 +597,10 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
 	tokenName := token.Name()
+	if isReverse {
+		return app.reverseBlock(token, stackMap, block, escape, channels, prevData, currentData)
+	}
+
 	list := []trees.Line{}
 	lines := block.Lines()
 	remaining := currentData
@@ -613,100 +617,6 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 		parentData, isParentLine := currentStack[tokenName].lines[idx]
 		currentStack[tokenName].lines[idx] = remaining
 
-		// if the line is in reverse:
-		if isReverse {
-			previousData := prevData
-			contentsList := []trees.Content{}
-
-			for {
-				if len(remaining) <= 0 {
-					break
-				}
-
-				if escape != nil {
-					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
-					if err == nil {
-						if escapeTree.Block().HasSuccessful() {
-							if escapeTree.HasRemaining() {
-								escapeRemaining := escapeTree.Remaining()
-								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, remaining, escapeRemaining)
-								if err == nil && treeLine.IsSuccessful() {
-									amount := len(escapeRemaining) - len(rem)
-									values := escapeRemaining[:amount]
-									for _, oneValue := range values {
-										value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentsList = append(contentsList, contentIns)
-									}
-
-									previousData = escapeRemaining
-									remaining = escapeRemaining[amount:]
-								}
-							}
-						}
-					}
-				}
-
-				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, previousData, remaining)
-				if err == nil {
-					break
-				}
-
-				value, err := app.treeValueBuilder.Create().WithContent(remaining[0]).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentsList = append(contentsList, contentIns)
-				previousData = remaining
-				remaining = remaining[1:]
-			}
-
-			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
-				elementIns,
-			}).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			lineIns, err := app.treeLineBuilder.Create().
-				WithIndex(uint(idx)).
-				WithGrammar(oneLine).
-				WithElements(elements).
-				IsReverse().
-				Now()
-
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			list = append(list, lineIns)
-			break
-		}
-
 		// the line is NOT in reverse:
 		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
 
@@ -742,6 +652,107 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 	return blockIns, remaining, currentStack, nil
 }
 
+// reverseBlock takes the data until one of the lines of the block matches, a match that follows an escape is taken as well, without its escape
+func (app *application) reverseBlock(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	contentsList := []trees.Content{}
+	previousData := prevData
+	remaining := currentData
+	for len(remaining) > 0 {
+		amount := 1
+		escaped := app.escaped(token, stackMap, block, escape, channels, previousData, remaining)
+		if escaped != nil {
+			remaining = escaped.data
+			amount = escaped.amount
+		}
+
+		if escaped == nil {
+			exception, _, _, err := app.block(token, stackMap, block, nil, channels, false, previousData, remaining)
+			if err == nil && exception != nil && exception.HasSuccessful() {
+				break
+			}
+		}
+
+		for _, oneValue := range remaining[:amount] {
+			value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
+			if err != nil {
+				return nil, nil, nil, err
+			}
+
+			contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+			if err != nil {
+				return nil, nil, nil, err
+			}
+
+			contentsList = append(contentsList, contentIns)
+		}
+
+		previousData = remaining
+		remaining = remaining[amount:]
+	}
+
+	contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
+		elementIns,
+	}).Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	lineIns, err := app.treeLineBuilder.Create().
+		WithIndex(0).
+		WithGrammar(block.Lines()[0]).
+		WithElements(elements).
+		IsReverse().
+		Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	blockIns, err := app.treeBlockBuilder.Create().WithLines([]trees.Line{
+		lineIns,
+	}).Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	return blockIns, remaining, stackMap, nil
+}
+
+// escaped returns the data that follows the escape and the amount of its bytes that are escaped, nil if there is none
+func (app *application) escaped(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, prevData []byte, currentData []byte) *escaped {
+	if escape == nil {
+		return nil
+	}
+
+	escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, prevData, currentData)
+	if err != nil || !escapeTree.Block().HasSuccessful() || !escapeTree.HasRemaining() {
+		return nil
+	}
+
+	data := escapeTree.Remaining()
+	exception, remaining, _, err := app.block(token, stackMap, block, nil, channels, false, currentData, data)
+	if err != nil || exception == nil || !exception.HasSuccessful() {
+		return nil
+	}
+
+	return &escaped{
+		data:   data,
+		amount: len(data) - len(remaining),
+	}
+}
+
 func (app *application) line(tokenName string, stackMap map[string]*stack, line grammars.Line, index uint, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Line, []byte, map[string]*stack, error) {
 	list := []trees.Element{}
 	grContainers := line.Containers()
diff --git a/libs/asts/applications/escaped.go b/libs/asts/applications/escaped.go
new file mode 100644
index 0000000..1df5d9e
--- /dev/null
+++ b/libs/asts/applications/escaped.go
@@ -0,0 +1,6 @@
+package applications
+
+type escaped struct {
+	data   []byte
+	amount int
+}
-- 
2.43.0


From 1657cef59205647995521a24d87307616bf98902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 22/37] fix: skip exactly the data a channel matched, and only
 when the tokens of its condition match

---
 libs/asts/applications/application.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 5e8d938..a10bc2e 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1040,8 +1040,11 @@ func (app *application) channels(channels grammars.Channels, prevData []byte, cu
 				continue
 			}
 
-			prefixLength := len(tree.Bytes(true))
-			rem := remaining[prefixLength:]
+			if !tree.Block().HasSuccessful() {
+				continue
+			}
+
+			rem := tree.Remaining()
 			if len(rem) == len(remaining) {
 				continue
 			}
@@ -1100,7 +1103,7 @@ func (app *application) channelCondition(condition grammars.ChannelCondition, pr
 			return false, err
 		}
 
-		isPrevMatch = tree != nil
+		isPrevMatch = tree.Block().HasSuccessful()
 	}
 
 	isNextMatch := true
@@ -1111,7 +1114,7 @@ func (app *application) channelCondition(condition grammars.ChannelCondition, pr
 			return false, err
 		}
 
-		isNextMatch = tree != nil
+		isNextMatch = tree.Block().HasSuccessful()
 	}
 	return isPrevMatch && isNextMatch, nil
 }
-- 
2.43.0


From 5d07c8a61d2ad8064d321ce05ea8821b9f973c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 23/37] fix: report the coverage of each element at its own
 index in the grammar, and of a grammar without suites

---
 libs/asts/applications/application.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index a10bc2e..6b2ce99 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -154,6 +154,10 @@ func (app *application) Coverages(grammar grammars.Grammar) (coverages.Coverages
 // Covered returns the covered tokens
 func (app *application) Covered(coverages coverages.Coverages) (map[string]map[uint]map[uint]string, error) {
 	coveredElements := map[string]map[uint]map[uint]string{}
+	if coverages == nil {
+		return coveredElements, nil
+	}
+
 	err := app.findCoveraredElements(coverages, &coveredElements)
 	if err != nil {
 		return nil, err
@@ -460,12 +464,25 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 
 	line := block.Successful()
 	index := line.Index()
+	containers := line.Grammar().Containers()
+	containerIdx := 0
 	elementsList := line.Elements().List()
-	for elIdx, oneElement := range elementsList {
+	for _, oneElement := range elementsList {
 		if !oneElement.HasGrammar() {
 			continue
 		}
 
+		// the elements that matched nothing are not in the tree, so retrieve the index of the element in the grammar's line:
+		for containerIdx < len(containers)-1 && containers[containerIdx] != oneElement.Grammar() {
+			containerIdx++
+		}
+
+		elementIdx := uint(containerIdx)
+		containerIdx++
+		if oneElement.Grammar().IsCompose() {
+			continue
+		}
+
 		elementName := oneElement.Grammar().Name()
 		covered := *pCovered
 		if _, ok := covered[tokenName]; !ok {
@@ -476,9 +493,8 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 			covered[tokenName][index] = map[uint]string{}
 		}
 
-		castedElIdx := uint(elIdx)
-		if _, ok := covered[tokenName][index][castedElIdx]; !ok {
-			covered[tokenName][index][castedElIdx] = elementName
+		if _, ok := covered[tokenName][index][elementIdx]; !ok {
+			covered[tokenName][index][elementIdx] = elementName
 		}
 
 		contents := oneElement.Contents().List()
-- 
2.43.0


From 59fc5d272a5c06c306964d62b1dbb7ad63bf90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 24/37] fix: include the channels that precede a value in the
 bytes of its content

---
 libs/asts/domain/trees/content.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/asts/domain/trees/content.go b/libs/asts/domain/trees/content.go
index 6ff43ed..dbe539b 100644
--- a/libs/asts/domain/trees/content.go
+++ b/libs/asts/domain/trees/content.go
@@ -32,8 +32,13 @@ func createContentInternally(
 // Bytes returns the content's bytes
 func (obj *content) Bytes(includeChannels bool) []byte {
 	if obj.IsValue() {
+		value := obj.Value()
+		if includeChannels && value.HasPrefix() {
+			return append(value.Prefix().Bytes(includeChannels), value.Content())
+		}
+
 		return []byte{
-			obj.Value().Content(),
+			value.Content(),
 		}
 	}
 
-- 
2.43.0


From a26e13f270371998814d93dd7aa346aebee332e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 25/37] fix: execute the value of a variable once, when it is
 assigned, instead of again for each of its attachments

---
 libs/interpreters/applications/application.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libs/interpreters/applications/application.go b/libs/interpreters/applications/application.go
index 716b7ad..4641ce5 100644
--- a/libs/interpreters/applications/application.go
+++ b/libs/interpreters/applications/application.go
@@ -413,24 +413,25 @@ func (app *application) compileModule(
 
 // Execute executes a program
 func (app *application) Execute(input []interface{}, program programs.Program) ([]interface{}, error) {
-	valueHashes := map[string]interface{}{}
+	values := map[programs.Value]interface{}{}
 	valueIndexes := map[uint]interface{}{}
 	instructions := program.Instructions().List()
 	for idx, oneInstruction := range instructions {
 		if oneInstruction.IsValue() {
 			value := oneInstruction.Value()
-			ins, err := app.executeValue(input, valueHashes, value)
+			ins, err := app.executeValue(input, values, value)
 			if err != nil {
 				str := fmt.Sprintf("there was an error while executing an assignment (index: %d): %s", idx, err.Error())
 				return nil, errors.New(str)
 			}
 
+			values[value] = ins
 			valueIndexes[uint(idx)] = ins
 			continue
 		}
 
 		execution := oneInstruction.Execution()
-		_, err := app.execute(input, valueHashes, execution)
+		_, err := app.execute(input, values, execution)
 		if err != nil {
 			appIndex := execution.Index()
 			moduleIndex := execution.Module().Index()
@@ -456,7 +457,7 @@ func (app *application) Execute(input []interface{}, program programs.Program) (
 	return filtered, nil
 }
 
-func (app *application) executeValue(input []interface{}, values map[string]interface{}, value programs.Value) (interface{}, error) {
+func (app *application) executeValue(input []interface{}, values map[programs.Value]interface{}, value programs.Value) (interface{}, error) {
 	if value.IsInput() {
 		pInputIndex := value.Input()
 		if *pInputIndex >= uint(len(input)) {
@@ -485,19 +486,25 @@ func (app *application) executeValue(input []interface{}, values map[string]inte
 	return app.execute(input, values, execution)
 }
 
-func (app *application) execute(input []interface{}, values map[string]interface{}, execution programs.Application) (interface{}, error) {
+func (app *application) execute(input []interface{}, values map[programs.Value]interface{}, execution programs.Application) (interface{}, error) {
 	module := execution.Module()
 	parameters := map[uint]interface{}{}
 	if execution.HasAttachments() {
 		attachments := execution.Attachments().List()
 		for _, oneAttachment := range attachments {
+			local := oneAttachment.Local()
 			attachedValue := oneAttachment.Value()
+			if ins, ok := values[attachedValue]; ok {
+				// the value was executed when its variable was assigned:
+				parameters[local] = ins
+				continue
+			}
+
 			ins, err := app.executeValue(input, values, attachedValue)
 			if err != nil {
 				return nil, err
 			}
 
-			local := oneAttachment.Local()
 			parameters[local] = ins
 		}
 	}
-- 
2.43.0


From b08f2c7991c414c3bfe3f7e0c9c82608b6b48be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 26/37] fix: continue with the next element after an element
 without grammar, instead of reading its grammar

---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..cbd5974 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
-- 
2.43.0


From 8e500df82a76f0bc986786f014f21c67cee4df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 27/37] fix: refuse a single content function without content
 with an error instead of a panic

---
 libs/queries/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index cbd5974..db86f4e 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -145,7 +145,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) <= 0 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From f0289e22cae878bbe36ef004ad6392b6ad067f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 28/37] fix: build the tokens of all or any characters from the
 bytes of each character, so that they match texts that are not ASCII

---
 instances/grammars/components/tokens/token.go | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/instances/grammars/components/tokens/token.go b/instances/grammars/components/tokens/token.go
index 903c412..c38a864 100644
--- a/instances/grammars/components/tokens/token.go
+++ b/instances/grammars/components/tokens/token.go
@@ -37,8 +37,8 @@ func createToken(
 // AllCharacters returns the all character token
 func (app *token) AllCharacters(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
+	for _, oneValue := range []byte(values) {
+		element := app.element.FromValue(oneValue)
 		elementsList = append(elementsList, element)
 	}
 
@@ -50,16 +50,21 @@ func (app *token) AllCharacters(tokenName string, values string) grammars.Token
 // AnyCharacter returns the any character token
 func (app *token) AnyCharacter(tokenName string, values string) grammars.Token {
 	suitesData := map[string]bool{}
-	elementsList := []grammars.Element{}
+	linesList := []grammars.Line{}
 	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
-		elementsList = append(elementsList, element)
-		suitesData[string(oneValue)] = true
+		character := string(oneValue)
+		elementsList := []grammars.Element{}
+		for _, oneByte := range []byte(character) {
+			elementsList = append(elementsList, app.element.FromValue(oneByte))
+		}
+
+		linesList = append(linesList, app.line.FromElements(elementsList))
+		suitesData[character] = true
 	}
 
-	return app.AnyElement(
+	return app.FromBlock(
 		tokenName,
-		elementsList,
+		app.block.FromLines(linesList),
 		app.suite.Suites(suitesData),
 	)
 }
-- 
2.43.0


From 5fbb17f33bead57e95b94d53586b66d74116b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 29/37] fix: opening or committing a database with content
 never ended or crashed when the read chunk size was zero

---
 libs/databases/infrastructure/files/application.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 181377d..120496f 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -178,7 +178,8 @@ func (app *application) Open(name string) (*uint, error) {
 }
 
 func (app *application) makeChunkSize(length uint) uint {
-	if app.readChunkSize > length {
+	// without a chunk size, read everything at once:
+	if app.readChunkSize <= 0 || app.readChunkSize > length {
 		return length
 	}
 
-- 
2.43.0


From 1ff7e416cefb3d6cce2fd3b7de84be4c6fbfaab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 30/37] fix: committing on a database deleted since it was
 opened created it again, empty

---
 libs/databases/infrastructure/files/application.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 120496f..bff6f97 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -544,8 +544,17 @@ func (app *application) updateReference(context uint) (references.Reference, err
 }
 
 func (app *application) updateDatabaseOnFile(context *context, updatedReference references.Reference) (*os.File, *uint, error) {
+	// create the source path:
+	sourcePath := filepath.Join(app.dirPath, context.name)
+
+	// make sure the database was not deleted since the context was opened, locking would create it again:
+	_, err := os.Stat(sourcePath)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// create a lock on the file:
-	err := context.pLock.TryLock()
+	err = context.pLock.TryLock()
 	if err != nil {
 		return nil, nil, err
 	}
@@ -553,9 +562,6 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
-	// create the source path:
-	sourcePath := filepath.Join(app.dirPath, context.name)
-
 	// make sure another session did not replace the database since the context was opened:
 	err = app.verifySource(context, sourcePath)
 	if err != nil {
-- 
2.43.0


From dd04fb7965407540678ea667e9d04479cc68f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 31/37] fix: committing on a damaged database allocated the
 content its keys announce, whatever the size of its file

---
 libs/databases/infrastructure/files/application.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index bff6f97..f41d91f 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -671,6 +671,18 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
 		remaining := context.reference.ContentKeys().Next()
+
+		// make sure the existing content fits in the source database, before reading it:
+		sourceInfo, err := context.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		if remaining > sourceInfo.Size()-readOffset {
+			str := fmt.Sprintf("%d bytes of content were expected in the source database at offset %d, but its file only contains %d bytes", remaining, readOffset, sourceInfo.Size())
+			return nil, errors.New(str)
+		}
+
 		for remaining > 0 {
 			// read the file at offset:
 			chunkSize := app.makeChunkSize(uint(remaining))
-- 
2.43.0


From 9d1c68f668781362bca250c9a99c151f056a1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 32/37] fix: committing on a database overwrote and removed
 another database named after its destination or backup file

---
 libs/databases/infrastructure/files/application.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index f41d91f..9383ae5 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/juju/fslock"
@@ -88,6 +89,14 @@ func (app *application) Exists(name string) (bool, error) {
 
 // New creates a new database
 func (app *application) New(name string) error {
+	// the files used by a commit are named after their database, so these names would be overwritten:
+	for _, oneExtension := range []string{app.dstExtension, app.bckExtension} {
+		if strings.HasSuffix(name, fmt.Sprintf("%s%s", fileNameExtensionDelimiter, oneExtension)) {
+			str := fmt.Sprintf("the name (%s) cannot be used for a database because its extension (%s) is reserved", name, oneExtension)
+			return errors.New(str)
+		}
+	}
+
 	if _, err := os.Stat(app.dirPath); errors.Is(err, os.ErrNotExist) {
 		err := os.MkdirAll(app.dirPath, filePermission)
 		if err != nil {
-- 
2.43.0


From 1da8a5ee10ec61a6c911844f7fd16c2847177dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 33/37] fix: committing with the same extension for the
 destination and the backup reported success and lost the database

---
 libs/databases/infrastructure/files/application.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 9383ae5..36a54ad 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -562,6 +562,12 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
+	// the backup would overwrite the destination:
+	if app.dstExtension == app.bckExtension {
+		str := fmt.Sprintf("the destination and backup files cannot use the same extension (%s)", app.dstExtension)
+		return nil, nil, errors.New(str)
+	}
+
 	// create a lock on the file:
 	err = context.pLock.TryLock()
 	if err != nil {
-- 
2.43.0


From d3e3b08d7be7666e01a3860b0d48f0eb067037b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 34/37] fix: data nested too deep overflowed the stack and
 killed the process, return an error instead

---
 libs/asts/applications/application.go | 42 +++++++++++++++++++++++++--
 libs/asts/applications/sdk.go         |  6 ++++
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 6b2ce99..0675269 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -27,6 +27,7 @@ type application struct {
 	coverageExecutionsBuilder coverages.ExecutionsBuilder
 	coverageExecutionBuilder  coverages.ExecutionBuilder
 	coverageResultBuilder     coverages.ResultBuilder
+	depth                     uint
 }
 
 func createApplication(
@@ -111,7 +112,9 @@ func (app *application) composeCompose(compose grammars.Compose) ([]byte, error)
 
 // Execute executes grammar on data
 func (app *application) Execute(grammar grammars.Grammar, values []byte) (trees.Tree, error) {
-	return app.grammar(grammar, false, []byte{}, values)
+	return app.execute(func(execution *application) (trees.Tree, error) {
+		return execution.grammar(grammar, false, []byte{}, values)
+	})
 }
 
 // Coverages returns the coverages of a grammar
@@ -325,7 +328,11 @@ func (app *application) coverageTokenSuite(token grammars.Token, channels gramma
 		return nil, err
 	}
 
-	tree, _, err := app.token(token, map[string]*stack{}, nil, channels, false, []byte{}, input)
+	tree, err := app.execute(func(execution *application) (trees.Tree, error) {
+		tree, _, err := execution.token(token, map[string]*stack{}, nil, channels, false, []byte{}, input)
+		return tree, err
+	})
+
 	resultBuilder := app.coverageResultBuilder.Create()
 	if tree != nil {
 		resultBuilder.WithTree(tree)
@@ -514,6 +521,27 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 	return nil
 }
 
+// execute calls the func with an application that counts the depth of its own execution, and returns an error if it is nested too deep
+func (app *application) execute(fn func(execution *application) (trees.Tree, error)) (tree trees.Tree, err error) {
+	defer func() {
+		value := recover()
+		if value == nil {
+			return
+		}
+
+		if value != errNestedTooDeep {
+			panic(value)
+		}
+
+		tree = nil
+		err = errNestedTooDeep
+	}()
+
+	execution := *app
+	execution.depth = 0
+	return fn(&execution)
+}
+
 func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, error) {
 	root := grammar.Root()
 	channels := grammar.Channels()
@@ -526,6 +554,16 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 }
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
+	// the stack cannot grow forever and its overflow cannot be recovered, so end the execution before it:
+	if app.depth >= maxDepth {
+		panic(errNestedTooDeep)
+	}
+
+	app.depth++
+	defer func() {
+		app.depth--
+	}()
+
 	tokenName := token.Name()
 	_, isInStack := stackMap[tokenName]
 	if !isInStack {
diff --git a/libs/asts/applications/sdk.go b/libs/asts/applications/sdk.go
index de7975f..3e92855 100644
--- a/libs/asts/applications/sdk.go
+++ b/libs/asts/applications/sdk.go
@@ -1,11 +1,17 @@
 package applications
 
 import (
+	"errors"
+
 	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
 	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
 	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
 )
 
+const maxDepth = uint(100000)
+
+var errNestedTooDeep = errors.New("the data is nested too deep for the grammar and therefore cannot be executed")
+
 // NewApplication creates a new application instance
 func NewApplication() Application {
 	grammarTokenBuilder := grammars.NewTokenBuilder()
-- 
2.43.0


From 308617c2fd67cc77696ec6e5f4c87a3e8f1b02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 35/37] fix: a commit shared the array of its list with the
 commits returned earlier, appending to these changed the history

---
 libs/databases/infrastructure/files/application.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 36a54ad..54360f8 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -494,7 +494,8 @@ func (app *application) updateReference(context uint) (references.Reference, err
 		// save the pointers in the commit references:
 		commitsList := []references.Commit{}
 		if pContext.reference != nil {
-			commitsList = pContext.reference.Commits().List()
+			// copy the list, callers might hold the previous one:
+			commitsList = append(commitsList, pContext.reference.Commits().List()...)
 		}
 
 		commitsList = append(commitsList, commit)
@@ -506,7 +507,8 @@ func (app *application) updateReference(context uint) (references.Reference, err
 		// get the pending content list:
 		contentKeysList := []references.ContentKey{}
 		if pContext.reference != nil {
-			contentKeysList = pContext.reference.ContentKeys().List()
+			// copy the list, callers might hold the previous one:
+			contentKeysList = append(contentKeysList, pContext.reference.ContentKeys().List()...)
 		}
 
 		// save all content:
-- 
2.43.0


From 36f9f4781e4110dcd36387872ac64ec19380fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 36/37] fix: a commit whose backup could not be written left
 the backup file open, a descriptor leaked on every try

---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 54360f8..b3ed205 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -603,6 +603,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 
 	_, err = io.Copy(backupPtr, context.pConn)
 	if err != nil {
+		backupPtr.Close()
 		return nil, nil, err
 	}
 
-- 
2.43.0


From 355206f501d1665c91bef4dbd2a54efefd7f551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:42 +0000
Subject: [PATCH 37/37] fix: creating a database emptied the one another
 session created at the same time

---
 libs/databases/infrastructure/files/application.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index b3ed205..74c33fe 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -111,7 +111,8 @@ func (app *application) New(name string) error {
 		return errors.New(str)
 	}
 
-	file, err := os.Create(path)
+	// another session might create the same database at the same time, so never replace its file:
+	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

