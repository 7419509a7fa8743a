From a1127fc5941cd632f22b0efc711eaaf18a270dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 01/42] fix: reject malformed files instead of panicking while
 decrypting

---
 crypt/crypto.go    |  8 ++++++--
 crypt/crypto_v1.go | 38 +++++++++++++++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..871455e 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -225,7 +225,7 @@ func IsMultiUser(encrypted []byte) (ok bool, err error) {
 
 	nUsersStr := string(encrypted[magicLen-4 : magicLen])
 	i, err := strconv.ParseInt(nUsersStr, 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return false, ErrInvalidFileFormat
 	}
 
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..e89b515 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -210,7 +210,7 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 
 	var nUsers int
 	i, err := strconv.ParseInt(string(nUserBytes), 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return p, nil, ErrInvalidFileFormat
 	}
 
@@ -231,6 +231,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		return p, nil, err
 	}
 
+	if len(encrypted) < magicLen+c.saltSize+c.blockSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	// Pull salt out and derive key
 	newSalt := encrypted[magicLen : magicLen+c.saltSize]
 	doDerive := !bytes.Equal(salt, newSalt)
@@ -266,6 +270,12 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// A payload that is not made of whole blocks was damaged or was not
+		// decrypted properly so far, treat it like a padding failure
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -276,6 +286,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -313,9 +327,14 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	s := sha256.Sum256(user)
 	userHash := s[:]
 
+	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
 	plaintextHeader := encrypted[magicLen:]
 
 	for i := 0; i < nUsers; i++ {
+		if len(plaintextHeader) < userSize {
+			return p, nil, ErrInvalidFileFormat
+		}
+
 		p.Users = append(p.Users, make([]byte, sha256.Size))
 		copy(p.Users[i], plaintextHeader[:sha256.Size])
 		plaintextHeader = plaintextHeader[sha256.Size:]
@@ -351,6 +370,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		//return p, nil, ErrUnknownUser
 	}
 
+	if len(plaintextHeader) < c.blockSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	p.IVM = make([]byte, c.blockSize)
 	copy(p.IVM, plaintextHeader[:c.blockSize])
 	plaintextHeader = plaintextHeader[c.blockSize:]
@@ -418,6 +441,12 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// A payload that is not made of whole blocks was damaged or was not
+		// decrypted properly so far, treat it like a padding failure
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -428,12 +457,15 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		}
 	}
 
-	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
 	newHash := sha512.New()
-	_, _ = newHash.Write(encrypted[:magicLen+(userSize*p.NUsers)+c.blockSize])
+	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)+c.blockSize])
 	_, _ = newHash.Write(plaintext)
 	shaSum := newHash.Sum(nil)
 
-- 
2.43.0


From f889c3fcee8c7ad67b8220f7143f2364f0893045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 02/42] fix: do not use the first user's credentials for an
 unknown user

---
 crypt/crypto_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index e89b515..d46b689 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -364,7 +364,7 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		p.Salts = append(p.Salts, make([]byte, c.saltSize))
 		p.IVs = append(p.IVs, make([]byte, c.blockSize))
 		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
+		p.User = len(p.Salts) - 1
 		p.NUsers++
 
 		//return p, nil, ErrUnknownUser
-- 
2.43.0


From 1663273b559156ecd9ff550a6a2fe12a6ec746e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 03/42] fix: refuse pkcs7 padding of zero bytes

---
 pkcs7/pad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..b64ff39 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,7 +63,7 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
-	if int(padBytes) > len(b) {
+	if padBytes == 0 || int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
 
-- 
2.43.0


From 336dac6790e0b9e654ed6b6befaa65a2367bbddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 04/42] fix: discard a snapshot that saw one transaction too
 many on rollback

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..5f87782 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -160,7 +160,7 @@ func (s *DB) Rollback() {
 		panic("rollback called before begin")
 	}
 
-	if s.Version > uint(s.txPoint) {
+	if s.Version > uint(s.txPoint-1) {
 		s.ResetSnapshot()
 	}
 
-- 
2.43.0


From 239f21894fb4d61e5483ff9601c1a8b9603a62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 05/42] fix: make a nested Begin panic as documented instead of
 losing the outer one

---
 txlogs/txlogs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 5f87782..4d38d04 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -143,6 +143,9 @@ func (s *DB) appendLog(tx Tx) {
 // We add 1 to the length to keep the 0 valid as a "no transaction started"
 // sentinel value.
 func (s *DB) Begin() {
+	if s.txPoint != 0 {
+		panic("begin called before commit or rollback")
+	}
 	s.txPoint = len(s.Log) + 1
 }
 
-- 
2.43.0


From 357b0b0ba49bfe673daa14942c891080f53407a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 06/42] fix: refuse a negative number of versions instead of
 panicking

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 4d38d04..606c799 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -234,7 +234,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
@@ -253,7 +253,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From 7d57e01f066f37c11d7272c12d8ed250894e01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 07/42] fix: read a null log as an empty one instead of
 panicking

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 606c799..dde2695 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 5dc2df8a96d2a066aaf5d17ebed4e2f0d581f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 08/42] fix: merge two empty logs without panicking

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index dde2695..9ce7075 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -339,7 +339,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
-	if lena == lenb &&
+	if lena == lenb && lena != 0 &&
 		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
 		// These are the same list of events
 		// There can be no possible fork that has happened if they
-- 
2.43.0


From 32845f95ca43cde907cab6644ecc3d87820c56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 09/42] fix: find the shared delete a conflict is about when
 merging

---
 txlogs/txlogs.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 9ce7075..5f75f90 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -434,13 +434,14 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// If ids are the same, append and move on, haven't reached fork
 		if a[i].Time == b[j].Time {
-			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
-			}
-
 			c = append(c, a[i])
 			i++
 			j++
+			// Events after it may conflict with a shared delete, so it has to
+			// be noted and may have been resolved already
+			if c[len(c)-1].Kind == TxDelete {
+				checkConflict()
+			}
 			continue
 		}
 
-- 
2.43.0


From 318a0d49c82fa3e9fc440cb8e472f2d51ba4caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 10/42] fix: keep both of two different changes made in the
 same instant when merging

---
 txlogs/txlogs.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 5f75f90..77931f7 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -432,8 +432,8 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			break
 		}
 
-		// If ids are the same, append and move on, haven't reached fork
-		if a[i].Time == b[j].Time {
+		// If they are the same, append and move on, haven't reached fork
+		if a[i] == b[j] {
 			c = append(c, a[i])
 			i++
 			j++
@@ -462,7 +462,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// Compare the txs
-		if a[i].Time < b[j].Time {
+		if txBefore(a[i], b[j]) {
 			c = append(c, a[i])
 			i++
 		} else {
@@ -490,6 +490,23 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	return c, nil
 }
 
+// txBefore orders two different transactions by time, changes that happened in
+// the same instant are put into an order that does not depend on which log they
+// come from.
+func txBefore(a, b Tx) bool {
+	switch {
+	case a.Time != b.Time:
+		return a.Time < b.Time
+	case a.UUID != b.UUID:
+		return a.UUID < b.UUID
+	case a.Kind != b.Kind:
+		return a.Kind < b.Kind
+	case a.Key != b.Key:
+		return a.Key < b.Key
+	}
+	return a.Value < b.Value
+}
+
 // applyTx applies the src transactions to the destination snapshot
 func applyTx(dst map[string]Entry, tx Tx) error {
 	switch tx.Kind {
-- 
2.43.0


From a0aa501fc2d41a29c5c6a6228a05196f079d9ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 11/42] fix: export the entries of the log instead of an empty
 snapshot

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 385f189..a41144a 100644
--- a/export.go
+++ b/export.go
@@ -11,6 +11,10 @@ import (
 )
 
 func export(u *uiContext) error {
+	if err := u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	var entries []string
 	keysSet := make(map[string]struct{})
 
-- 
2.43.0


From 308b3cd93975f1e01fbe055289797a423f0f0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 12/42] fix: wrap the new master key, not the old one, when
 rekeying all users

---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index b5b025b..6281b6e 100644
--- a/commands.go
+++ b/commands.go
@@ -259,7 +259,7 @@ func (u *uiContext) rekeyAll() error {
 			u.salt = salt
 		}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 83bf9b46cd4e099b4e0729e983b6830419296189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 13/42] fix: only take entries that start with the user prefix
 for users

---
 blobformat/blobs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..dd94872 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -494,12 +494,11 @@ func IsUserEntry(name string) bool {
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !IsUserEntry(entryname) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From 910de5c91b636c12efacd14745fb56b3f2e6fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 14/42] fix: remember the passphrase of a file that was just
 created

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 1bf94b4..4a9ed07 100644
--- a/main.go
+++ b/main.go
@@ -180,6 +180,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From ddc83648fbb21e850ba6f2353de7cf2cac03f0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 15/42] fix: let passwd and rekey change the credentials of the
 user they are given

---
 commands.go | 60 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/commands.go b/commands.go
index 6281b6e..b2dc6e7 100644
--- a/commands.go
+++ b/commands.go
@@ -49,6 +49,24 @@ const (
 )
 
 func (u *uiContext) passwd(user string) error {
+	if len(user) == 0 {
+		user = u.user
+	}
+
+	// We have to update the user entry if it's a multi-user file
+	var uuid string
+	var err error
+	if len(u.master) != 0 {
+		uuid, _, err = u.store.FindUser(user)
+		if err != nil {
+			return err
+		}
+		if len(uuid) == 0 {
+			errColor.Printf("user %q does not exist\n", user)
+			return nil
+		}
+	}
+
 	pass, err := u.getPassword()
 	if err != nil {
 		return err
@@ -65,19 +83,13 @@ func (u *uiContext) passwd(user string) error {
 	}
 
 	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
+	if len(u.master) == 0 || u.user == user {
 		u.pass = pass
 		u.key = key
 		u.salt = salt
 	}
 
-	// We have to update the user entry if it's a multi-user file
-	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
-		if err != nil {
-			return err
-		}
-
+	if len(uuid) != 0 {
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
@@ -143,10 +155,25 @@ func (u *uiContext) adduser(user string) error {
 }
 
 func (u *uiContext) rekey(user string) error {
-	isCurrentUser := len(user) == 0
+	if len(user) == 0 {
+		user = u.user
+	}
+	isCurrentUser := len(u.master) == 0 || u.user == user
 
-	var pass string
+	// If we're multi-user we need to update the corresponding user entry
+	var pass, uuid string
 	var err error
+	if len(u.master) != 0 {
+		uuid, _, err = u.store.FindUser(user)
+		if err != nil {
+			return err
+		}
+		if len(uuid) == 0 {
+			errColor.Printf("user %q does not exist\n", user)
+			return nil
+		}
+	}
+
 	if isCurrentUser {
 		pass = u.pass
 	} else {
@@ -174,18 +201,7 @@ func (u *uiContext) rekey(user string) error {
 		u.salt = salt
 	}
 
-	if len(u.master) != 0 {
-		// If we're multi-user we need to update the corresponding user entry
-		username := u.user
-		if len(user) != 0 {
-			username = user
-		}
-
-		uuid, _, err := u.store.MustFindUser(username)
-		if err != nil {
-			return err
-		}
-
+	if len(uuid) != 0 {
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
-- 
2.43.0


From 2f3f8bfc8686d406c1e63c1c2de5607d8fa3bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 16/42] fix: do not leave a user without credentials behind
 when adduser is given no password

---
 commands.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/commands.go b/commands.go
index b2dc6e7..91e5a87 100644
--- a/commands.go
+++ b/commands.go
@@ -105,12 +105,13 @@ func (u *uiContext) passwd(user string) error {
 }
 
 func (u *uiContext) adduser(user string) error {
-	uuid, err := u.store.NewUser(user)
-	if err == blobformat.ErrNameNotUnique {
+	existing, _, err := u.store.FindUser(user)
+	if err != nil {
+		return err
+	}
+	if len(existing) != 0 {
 		errColor.Println("user already exists")
 		return nil
-	} else if err != nil {
-		return err
 	}
 
 	var key, salt []byte
@@ -118,7 +119,7 @@ func (u *uiContext) adduser(user string) error {
 	if len(u.master) == 0 {
 		u.master, u.ivm, err = crypt.NewMasterKey(cryptVersion)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		u.user = user
@@ -130,6 +131,11 @@ func (u *uiContext) adduser(user string) error {
 			return err
 		}
 
+		if len(pass) == 0 {
+			errColor.Println("refusing to use empty password")
+			return nil
+		}
+
 		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 		if err != nil {
 			return err
@@ -141,6 +147,11 @@ func (u *uiContext) adduser(user string) error {
 		return err
 	}
 
+	uuid, err := u.store.NewUser(user)
+	if err != nil {
+		return err
+	}
+
 	u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
 	u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
 	u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
-- 
2.43.0


From 56989da3bb73367ba5789d972ffc4618289e7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 17/42] fix: compare each merged remote with the outcome of the
 merges before it

---
 merging.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/merging.go b/merging.go
index c46e738..d579fb7 100644
--- a/merging.go
+++ b/merging.go
@@ -77,8 +77,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			return m, err
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
@@ -96,7 +96,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
 			// We have to instantiate the merged blob and check user counts
 			db := &txlogs.DB{Log: merged}
@@ -106,20 +106,20 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, err
 			}
 
-			if len(users) == 0 && len(u.master) != 0 {
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) {
 			// There's been a master change in a multi multi
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
-- 
2.43.0


From 5dfc39dc4f75bbcbb32454bf9f9be802ed5fd1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 18/42] fix: replace files atomically when saving and pushing

Writing in place truncates the old contents first, a crash or a full disk
while saving lost the whole file.
---
 main.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 sync.go |  2 +-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 4a9ed07..bfeb953 100644
--- a/main.go
+++ b/main.go
@@ -270,7 +270,46 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFile(flagFile, data)
+}
+
+// writeFile replaces what's in the file all at once: if anything goes wrong on
+// the way the file keeps its old contents.
+func writeFile(filename string, data []byte) (err error) {
+	// Replace what a link points to, not the link itself
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(filename), ".bpass")
+	if err != nil {
+		return err
+	}
+
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if _, err = tmp.Write(data); err != nil {
+		return err
+	}
+	// An existing file keeps its permissions, new ones are private
+	if info, statErr := os.Stat(filename); statErr == nil {
+		if err = tmp.Chmod(info.Mode().Perm()); err != nil {
+			return err
+		}
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmp.Name(), filename)
 }
 
 func shortPath(filename string) string {
diff --git a/sync.go b/sync.go
index 706fd9b..780ce03 100644
--- a/sync.go
+++ b/sync.go
@@ -297,7 +297,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 		hostentry, err = sshPush(u, entry, payload)
 	case syncFile:
 		path := filepath.FromSlash(uri.Path)
-		err = ioutil.WriteFile(path, payload, 0600)
+		err = writeFile(path, payload)
 	}
 
 	return hostentry, err
-- 
2.43.0


From af18530405a747eda4f9da6b233f56917bf0c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 19/42] fix: create exported files readable by their owner only

---
 export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.go b/export.go
index a41144a..ab64fce 100644
--- a/export.go
+++ b/export.go
@@ -33,7 +33,7 @@ func export(u *uiContext) error {
 		return errors.New("only supported format for export is csv")
 	}
 
-	f, err := os.Create(flagExportFilename)
+	f, err := os.OpenFile(flagExportFilename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
-- 
2.43.0


From 7d5106e5e41866baf76846e5ed01d903fd729326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 20/42] fix: wipe the temporary file of an edit that failed

The file was already closed when the editor could not be run, so the old
value stayed in it. A value that was only written in part is no longer
offered for editing.
---
 commands.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/commands.go b/commands.go
index 91e5a87..25cf371 100644
--- a/commands.go
+++ b/commands.go
@@ -900,6 +900,7 @@ func (u *uiContext) edit(search, key string) error {
 	if len(oldValue) != 0 {
 		if _, err = io.WriteString(tmp, oldValue); err != nil {
 			errColor.Println("failed to write to tmp file")
+			return nil
 		}
 	}
 	maxLen := len(oldValue)
@@ -912,12 +913,15 @@ func (u *uiContext) edit(search, key string) error {
 			return
 		}
 
-		if _, err = tmp.Seek(0, os.SEEK_SET); err != nil {
-			errColor.Println("failed to seek in file:", err)
+		// Unless the edit got to reading the new value tmp is closed
+		wipe, err := os.OpenFile(fname, os.O_WRONLY, 0600)
+		if err != nil {
+			errColor.Println("failed to open tmp file to zero it:", err)
 			return
 		}
+		defer wipe.Close()
 
-		if _, err = tmp.Write(make([]byte, maxLen)); err != nil {
+		if _, err = wipe.Write(make([]byte, maxLen)); err != nil {
 			errColor.Println("failed to zero the tmp file:", err)
 		}
 	}()
-- 
2.43.0


From 45ebb2358fc9faedfca45e6115631c4f9370069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 21/42] fix: a malformed known hosts line no longer crashes the
 host key check

---
 sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 780ce03..86f6726 100644
--- a/sync.go
+++ b/sync.go
@@ -428,7 +428,7 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 	for _, h := range knownLines {
 		vals := strings.Split(h, " ")
 
-		if vals[0] != hostname {
+		if len(vals) != 4 || vals[0] != hostname {
 			continue
 		}
 
-- 
2.43.0


From d2984d1c526cbf047a3be5762302cbbc53efa916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 22/42] fix: syncing an entry whose url is malformed or has no
 path no longer crashes

---
 sync.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sync.go b/sync.go
index 86f6726..95126e4 100644
--- a/sync.go
+++ b/sync.go
@@ -263,8 +263,10 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 // pullBlob tries to download a file from the given sync entry
 func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	// We know this parses because we parsed it once before
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return nil, "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
@@ -290,7 +292,10 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 // pushBlob uploads a file to a given sync entry
 func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
@@ -377,7 +382,7 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From 1c7d5bf91fa3a14dc332b0edeaefc388dff4e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 23/42] fix: syncing with a remote file that has no entries no
 longer crashes

---
 merging.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merging.go b/merging.go
index d579fb7..27d8dd9 100644
--- a/merging.go
+++ b/merging.go
@@ -71,6 +71,11 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	copy(m.Log, u.store.Log)
 
 	for _, r := range remotes {
+		if len(r.Log) == 0 {
+			// A file nothing was ever added to, there's nothing to merge
+			continue
+		}
+
 		takeRemoteCreds := false
 		merged, err := mergeLogs(u, m.Log, r.Log)
 		if err != nil {
-- 
2.43.0


From 171b1c2696840cd03d9295818109cea0e47fbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 24/42] fix: removing a label dropped all labels but the last
 and crashed on a negative index

---
 blobformat/blobs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index dd94872..b406604 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -441,19 +441,19 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 	}
 
 	labels := strings.Split(entry[KeyLabels], ",")
-	if index >= len(labels) {
+	if index < 0 || index >= len(labels) {
 		return errors.New("index out of range")
 	}
 
+	b.touchUpdated(uuid)
 	if len(labels) == 1 {
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
-	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
 	return nil
 }
-- 
2.43.0


From 0144c6fde7f10e4ee26edcb61c9c482748c091fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 25/42] fix: fuzzy matching text that is not valid utf8 no
 longer crashes

---
 fuzzy/fuzzy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index e58ab6f..075c498 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -28,7 +28,9 @@ Search:
 	for _, searchChar := range search {
 		for i, char := range s {
 			if searchChar == char || searchChar == unicode.ToLower(char) {
-				s = s[utf8.RuneLen(char)+i:]
+				// What is not valid utf8 is narrower than its rune
+				_, width := utf8.DecodeRuneInString(s[i:])
+				s = s[i+width:]
 				continue Search
 			}
 		}
-- 
2.43.0


From 3730c106c6f99085c74affa090e63c2f9e348cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 26/42] fix: generated passwords favoured some characters and
 orders and a length of 256 crashed

---
 passwd_gen.go | 68 +++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..00f94e4 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -3,6 +3,7 @@ package main
 import (
 	"crypto/rand"
 	"errors"
+	"math/big"
 )
 
 var (
@@ -20,9 +21,13 @@ var (
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
 	needLen := 0
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
-		if i > 0 {
-			needLen += i
+		if i <= 0 {
+			continue
 		}
+		if i > length-needLen {
+			return "", errPasswordImpossible
+		}
+		needLen += i
 	}
 
 	if needLen > length {
@@ -31,18 +36,7 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	randomPicks := length - needLen
 
-	// offset is the offset in the password
-	offset := 0
-	// eOffset is the entropy offset
-	eOffset := 0
-	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
-	n, err := rand.Read(entropy)
-	if err != nil {
-		return "", err
-	} else if n != len(entropy) {
-		return "", errors.New("failed to generate enough entropy")
-	}
+	password := make([]byte, 0, length)
 
 	type pair struct {
 		alphabet string
@@ -68,10 +62,11 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	for _, p := range pairs {
 		for i := p.num; i > 0; i-- {
-			ln := byte(len(p.alphabet))
-			password[offset] = p.alphabet[entropy[eOffset]%ln]
-			offset++
-			eOffset++
+			n, err := randomInt(len(p.alphabet))
+			if err != nil {
+				return "", err
+			}
+			password = append(password, p.alphabet[n])
 		}
 	}
 
@@ -80,22 +75,37 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 	}
 
 	for i := randomPicks; i > 0; i-- {
-		ln := byte(len(pairs))
-		p := pairs[entropy[eOffset]%ln]
-		eOffset++
-
-		ln = byte(len(p.alphabet))
-		password[offset] = p.alphabet[entropy[eOffset]%ln]
-		offset++
-		eOffset++
+		pick, err := randomInt(len(pairs))
+		if err != nil {
+			return "", err
+		}
+		p := pairs[pick]
+
+		n, err := randomInt(len(p.alphabet))
+		if err != nil {
+			return "", err
+		}
+		password = append(password, p.alphabet[n])
 	}
 
-	for i := 0; i < length; i++ {
+	for i := len(password) - 1; i > 0; i-- {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
+		swap, err := randomInt(i + 1)
+		if err != nil {
+			return "", err
+		}
 		password[i], password[swap] = password[swap], password[i]
-		eOffset++
 	}
 
 	return string(password), nil
 }
+
+// randomInt returns a number less than n, all of them are equally likely
+func randomInt(n int) (int, error) {
+	i, err := rand.Int(rand.Reader, big.NewInt(int64(n)))
+	if err != nil {
+		return 0, err
+	}
+
+	return int(i.Int64()), nil
+}
-- 
2.43.0


From 8562a29c3a0781058d665246606663de8f57a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 27/42] fix: the password prompt crashed on blank input and
 accepted a password that could not be generated

---
 uihelpers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..51f9269 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -264,9 +264,14 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
-		case choice == "":
+		case len(splits) == 0:
 			// Just regen
 		case choice == "y":
+			if len(password) == 0 {
+				errColor.Println("There is no password to accept")
+				regen = false
+				continue
+			}
 			return password, nil
 		case choice == "m":
 			initial, err := u.promptPassword(promptColor.Sprint("enter new password: "))
-- 
2.43.0


From c69d4c4e92811cbc2fc30647e9a09ed944206098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 28/42] fix: importing from lastpass made an entry of the
 header

---
 import.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/import.go b/import.go
index ef60100..44064d9 100644
--- a/import.go
+++ b/import.go
@@ -51,6 +51,10 @@ func importLastpass(u *uiContext) error {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
+			if len(record) != 7 {
+				return errors.New("lastpass csv format not recognized")
+			}
+			continue
 		}
 
 		// Fields:
-- 
2.43.0


From 64692175860d4926a0f19ad3e9791cb86e4497d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 29/42] fix: a negative file length sent by the remote scp no
 longer crashes

---
 scpsync/scpsync.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..695eecb 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -260,6 +260,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 	length, err := strconv.ParseInt(fields[1], 10, 32)
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
+	} else if length < 0 {
+		return file, fmt.Errorf("length is negative: %d", length)
 	}
 
 	// Acknowledge we've received the initial header
-- 
2.43.0


From 2626545171a80ea5fa606d475de93272a244e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 30/42] fix: importing a lastpass header with fewer fields no
 longer crashes

---
 import.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/import.go b/import.go
index 44064d9..136dc9e 100644
--- a/import.go
+++ b/import.go
@@ -47,13 +47,13 @@ func importLastpass(u *uiContext) error {
 			return err
 		}
 
+		if len(record) != 7 {
+			return errors.New("lastpass csv format not recognized")
+		}
 		if i == 0 {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
-			if len(record) != 7 {
-				return errors.New("lastpass csv format not recognized")
-			}
 			continue
 		}
 
-- 
2.43.0


From 12cddd14841f86e52abf41979859c2422c8e1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 31/42] fix: failing to set up the line editor no longer
 crashes when it is closed

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index bfeb953..17b2d53 100644
--- a/main.go
+++ b/main.go
@@ -50,7 +50,7 @@ func main() {
 	// to use from above
 	if err = setupLineEditor(ctx); err != nil {
 		fmt.Printf("failed to setup line editor: %+v\n", err)
-		goto Exit
+		os.Exit(1)
 	}
 
 	if genCmd.Used {
-- 
2.43.0


From 8c8cc0fcdbeb1fa19a24c3b609951de2d8a9408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 32/42] fix: failing to open or save the file is reported by
 the exit status

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 17b2d53..fb9239a 100644
--- a/main.go
+++ b/main.go
@@ -123,13 +123,13 @@ func main() {
 
 Exit:
 	if !flagNoClearClip {
-		if err = clipboard.WriteAll(""); err != nil {
+		if clipErr := clipboard.WriteAll(""); clipErr != nil {
 			fmt.Println("failed to clear the clipboard")
 		}
 	}
 
-	if err = ctx.in.Close(); err != nil {
-		fmt.Println("failed to close terminal properly:", err)
+	if closeErr := ctx.in.Close(); closeErr != nil {
+		fmt.Println("failed to close terminal properly:", closeErr)
 	}
 
 	if err != nil {
-- 
2.43.0


From 13f533506a9b6d3cc91a4370f825aecb4ef0d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 33/42] fix: the clipboard is cleared when a sync poisons the
 store

---
 sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 95126e4..5e35cfc 100644
--- a/sync.go
+++ b/sync.go
@@ -147,7 +147,7 @@ Syncs:
 	if err = u.store.UpdateSnapshot(); err != nil {
 		errColor.Println("failed to rebuild snapshot, poisoned by sync:", err)
 		errColor.Println("exiting to avoid corrupting local file")
-		os.Exit(1)
+		return err
 	}
 
 	if err = saveHosts(u.store.DB, hosts); err != nil {
-- 
2.43.0


From 483aca9088bee21b133b80eee4349343a8f21a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 34/42] fix: deciding a conflict ends the question

The loop around the question was never left after a valid answer, so a sync
with a conflicting deletion could only be aborted. What happened to the
deleted entry is shown by the kind of the change, not that of the deletion.
---
 merging.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/merging.go b/merging.go
index 27d8dd9..5b039f5 100644
--- a/merging.go
+++ b/merging.go
@@ -249,7 +249,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					time.Unix(0, c.Conflict.Time).Format(time.RFC3339),
 				)
 
-				switch c.Initial.Kind {
+				switch c.Conflict.Kind {
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
@@ -261,7 +261,8 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					)
 				}
 
-				for {
+				decided := false
+				for !decided {
 					line, err := u.prompt(promptColor.Sprint("[R]estore item? [D]elete item? (r/R/d/D): "))
 					if err != nil {
 						return nil, err
@@ -270,10 +271,10 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					switch line {
 					case "R", "r":
 						conflicts[i].DiscardInitial()
+						decided = true
 					case "D", "d":
 						conflicts[i].DiscardConflict()
-					default:
-						continue
+						decided = true
 					}
 				}
 			}
-- 
2.43.0


From d408510d8599a0f7e64f1ba51268542da95a36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 35/42] fix: answers to earlier conflicts are kept while
 merging

If answering one round of conflicts brought up others, the next merge was only
given the answers to those, and the first ones were asked about again forever.
---
 merging.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merging.go b/merging.go
index 5b039f5..40a47d5 100644
--- a/merging.go
+++ b/merging.go
@@ -218,9 +218,9 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	var conflicts, resolved []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		c, conflicts = txlogs.Merge(local, remote, resolved)
 
 		if len(conflicts) == 0 {
 			break
@@ -279,6 +279,9 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 				}
 			}
 		}
+
+		// Keep the earlier answers, or their conflicts would come up again
+		resolved = append(resolved, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From 9af7fa3591d59490d9dbe930714d1a3bbb286c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 36/42] fix: the fields that hold a user's key cannot be
 deleted

Deleting iv, salt or mkey of a user entry locked that user out of the file,
although setting them by hand is refused.
---
 blobformat/blobs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index b406604..9ccc783 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -372,7 +372,7 @@ func (b Blobs) Set(uuid, key, value string) error {
 // DeleteKey from an entry, follows the rules of Set() for protected keys.
 func (b Blobs) DeleteKey(uuid, key string) error {
 	switch key {
-	case KeyName, KeyUpdated:
+	case KeyName, KeyUpdated, KeyIV, KeySalt, KeyMKey:
 		return keyNotAllowed(key)
 	}
 
-- 
2.43.0


From 3750c035c8438a75be5439ca907c31a78346b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 37/42] fix: set does not announce a value the store refused

---
 commands.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 25cf371..6b718f9 100644
--- a/commands.go
+++ b/commands.go
@@ -849,7 +849,13 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
+		if blobformat.IsKeyNotAllowed(err) {
+			errColor.Println(key, "may not be set")
+			return nil
+		} else if err != nil {
+			return err
+		}
 	}
 
 	infoColor.Printf("set %s = %s\n", key, value)
-- 
2.43.0


From 39449cd2388c5af593fdfd2e9dea0d2b91db2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 38/42] fix: edit does not announce a value the store refused

---
 commands.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/commands.go b/commands.go
index 6b718f9..149b788 100644
--- a/commands.go
+++ b/commands.go
@@ -969,11 +969,21 @@ func (u *uiContext) edit(search, key string) error {
 	}
 
 	if len(newValue) == 0 {
-		infoColor.Println("erasing value")
-		u.store.DeleteKey(uuid, key)
+		err = u.store.DeleteKey(uuid, key)
+	} else {
+		err = u.store.Set(uuid, key, string(newValue))
+	}
+	if blobformat.IsKeyNotAllowed(err) {
+		errColor.Println(key, "may not be changed")
+		return nil
+	} else if err != nil {
+		return err
+	}
+
+	if len(newValue) == 0 {
+		infoColor.Println("erased value")
 	} else {
 		infoColor.Printf("set %s\n", key)
-		u.store.Set(uuid, key, string(newValue))
 	}
 
 	return nil
-- 
2.43.0


From 7782812550d8bb5c798028b741d92ae187b8a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 39/42] fix: deleteKey reports every failure to delete

---
 commands.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commands.go b/commands.go
index 149b788..4599df1 100644
--- a/commands.go
+++ b/commands.go
@@ -644,6 +644,8 @@ func (u *uiContext) deleteKey(search, key string) error {
 		if blobformat.IsKeyNotAllowed(err) {
 			errColor.Println(key, "may not be deleted")
 			return nil
+		} else if err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 0f9e3d767a2d8a81069ba3107d7e2742e48ddff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 40/42] fix: openurl hands on the error of the search

---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 4599df1..ad3c928 100644
--- a/commands.go
+++ b/commands.go
@@ -1223,7 +1223,7 @@ func showMultiline(u *uiContext, key string, val string, width, indent int) {
 func (u *uiContext) openurl(search string) error {
 	uuid, err := u.findOne(search)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(uuid) == 0 {
 		return nil
-- 
2.43.0


From 21d35ed76bcf9420cffcd3256ffb34d50d85e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:17 +0000
Subject: [PATCH 41/42] fix: names alone make no users: add, mv and import keep
 off them

---
 blobformat/blobs.go | 28 +++++++++++++++++++++++++---
 commands.go         |  6 ++++++
 import.go           |  3 +++
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 9ccc783..81e3df7 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -18,6 +18,9 @@ import (
 var (
 	ErrNameNotUnique = errors.New("name is not unique")
 	ErrKeyNotAllowed = errors.New("key is not allowed")
+	// ErrNameReserved occurs when an entry would become a user by its name
+	// alone, or a user would stop being one
+	ErrNameReserved = errors.New("name is reserved for users")
 )
 
 type keyNotAllowed string
@@ -307,7 +310,17 @@ func (b Blobs) Users() (results SearchResults, err error) {
 // New creates a new entry. It will return ErrNameNotUnique if the name
 // is not unique. The entry is not immediately inserted but instead returned
 // so things may be added to it before its stored with the Add function.
+//
+// The names of users are refused with ErrNameReserved, see NewUser.
 func (b Blobs) New(name string) (uuid string, err error) {
+	if IsUserEntry(name) {
+		return "", ErrNameReserved
+	}
+
+	return b.newEntry(name)
+}
+
+func (b Blobs) newEntry(name string) (uuid string, err error) {
 	if err = b.UpdateSnapshot(); err != nil {
 		return "", err
 	}
@@ -330,7 +343,8 @@ func (b Blobs) New(name string) (uuid string, err error) {
 }
 
 // Rename a specific uuid to a new name, returns ErrNameNotUnique if not
-// possible.
+// possible. Users can only be renamed to users, and other entries can not be
+// renamed to users, this returns ErrNameReserved.
 func (b Blobs) Rename(uuid, newName string) error {
 	if err := b.UpdateSnapshot(); err != nil {
 		return err
@@ -343,11 +357,15 @@ func (b Blobs) Rename(uuid, newName string) error {
 		}
 	}
 
-	_, ok := b.DB.Snapshot[uuid]
+	entry, ok := b.DB.Snapshot[uuid]
 	if !ok {
 		return errors.New("uuid not found")
 	}
 
+	if IsUserEntry(newName) != IsUserEntry(Blob(entry).Name()) || newName == userPrefix {
+		return ErrNameReserved
+	}
+
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyName, newName)
 	return nil
@@ -483,7 +501,11 @@ func (b Blobs) NewSync(kind string) (uuid string, err error) {
 // NewUser creates a new blob and ensures that the user's name is unique,
 // if the user name is not unique it returns an error.
 func (b Blobs) NewUser(name string) (uuid string, err error) {
-	return b.New(userPrefix + name)
+	if len(name) == 0 {
+		return "", ErrNameReserved
+	}
+
+	return b.newEntry(userPrefix + name)
 }
 
 // IsUserEntry checks to see if the name conforms to user standards
diff --git a/commands.go b/commands.go
index ad3c928..d6dcd02 100644
--- a/commands.go
+++ b/commands.go
@@ -515,6 +515,9 @@ func (u *uiContext) addNew(name string) (err error) {
 			if err == blobformat.ErrNameNotUnique {
 				errColor.Printf("%q already exists\n", name)
 				return nil
+			} else if err == blobformat.ErrNameReserved {
+				errColor.Printf("%q is a name for users, see adduser\n", name)
+				return nil
 			}
 			return err
 		}
@@ -563,6 +566,9 @@ func (u *uiContext) rename(src, dst string) error {
 	if err := u.store.Rename(oldUUID, dst); err == blobformat.ErrNameNotUnique {
 		errColor.Println(dst, "already exists")
 		return nil
+	} else if err == blobformat.ErrNameReserved {
+		errColor.Println("users can only be renamed to users, and nothing else can")
+		return nil
 	} else if err != nil {
 		return err
 	}
diff --git a/import.go b/import.go
index 136dc9e..cd9ab4e 100644
--- a/import.go
+++ b/import.go
@@ -73,6 +73,9 @@ func importLastpass(u *uiContext) error {
 				if err == blobformat.ErrNameNotUnique {
 					newName += "1"
 					continue
+				} else if err == blobformat.ErrNameReserved {
+					newName = "_" + newName
+					continue
 				}
 
 				return err
-- 
2.43.0


From 17746854279e7420ce8e7173bf23b3887bbe626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:17 +0000
Subject: [PATCH 42/42] fix: the session's user follows its renaming

---
 commands.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/commands.go b/commands.go
index d6dcd02..957ea80 100644
--- a/commands.go
+++ b/commands.go
@@ -573,6 +573,11 @@ func (u *uiContext) rename(src, dst string) error {
 		return err
 	}
 
+	// This session's user may be the one that was renamed
+	if username := blobformat.SplitUsername(src); len(username) > 0 && username == u.user {
+		u.user = blobformat.SplitUsername(dst)
+	}
+
 	infoColor.Printf("moved %q => %q\n", src, dst)
 	return nil
 }
-- 
2.43.0

