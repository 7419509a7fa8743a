seed("b07-rollbackn-snapshot", "C13",
 "a snapshot built some transactions before the end of the log, then a rollback that goes past that point",
 "rolling back n transactions keeps a snapshot unless it is completely up to date, so effects of removed transactions stay readable",
 [("txlogs/txlogs.go", "	if s.Version > ln-n {\n", "	if s.Version == ln {\n")],
 pkg="txlogs", test='''
package txlogs

import "testing"

func TestDemo(t *testing.T) {
	db := new(DB)
	id, err := db.Add()
	if err != nil {
		t.Fatal(err)
	}
	db.Set(id, "k", "old")
	db.Set(id, "k", "new")
	if err = db.UpdateSnapshot(); err != nil {
		t.Fatal(err)
	}
	db.Set(id, "k", "newer")
	if err = db.RollbackN(2); err != nil {
		t.Fatal(err)
	}
	if err = db.UpdateSnapshot(); err != nil {
		t.Fatal(err)
	}
	if got := db.Snapshot[id]["k"]; got != "old" {
		t.Fatalf("k is %q after the rollback", got)
	}
}
''')

seed("b08-do-error-lost", "C13",
 "a function run in a transaction that fails without having changed anything",
 "a scoped transaction whose function fails before its first change is reported as successful",
 [("txlogs/txlogs.go", """	err := fn()
	if err != nil {
		s.Rollback()
	} else {
		s.Commit()
	}
	return err
""", """	err := fn()
	if err != nil && len(s.Log) >= s.txPoint {
		s.Rollback()
	} else {
		s.Commit()
		err = nil
	}
	return err
""")],
 pkg="txlogs", test='''
package txlogs

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	db := new(DB)
	want := errors.New("no")
	if err := db.Do(func() error { return want }); err != want {
		t.Fatalf("got %v", err)
	}
}
''')

seed("b09-update-skips-failed", "C14",
 "a log with an entry that cannot be applied, and a second attempt to bring the snapshot up to date",
 "a transaction that failed to apply is counted as applied, so the next update silently passes over it",
 [("txlogs/txlogs.go", """	for ; s.Version < uint(len(s.Log)); s.Version++ {
		if err := applyTx(s.Snapshot, s.Log[s.Version]); err != nil {
			return err
""", """	for ; s.Version < uint(len(s.Log)); s.Version++ {
		if err := applyTx(s.Snapshot, s.Log[s.Version]); err != nil {
			s.Version++
			return err
""")],
 pkg="txlogs", test='''
package txlogs

import "testing"

func TestDemo(t *testing.T) {
	db := new(DB)
	db.Set("nobody", "k", "v")
	if err := db.UpdateSnapshot(); err == nil {
		t.Fatal("setting a key of a missing entry worked")
	}
	if err := db.UpdateSnapshot(); err == nil {
		t.Fatal("the second update passed over the failed transaction")
	}
}
''')

seed("b10-set-coalesced", "C15",
 "the same key of the same entry set twice in a row",
 "a change that follows a change of the same key replaces it in the log, so the history loses a version",
 [("txlogs/txlogs.go", """	tx.Time = time.Now().UnixNano()
	s.Log = append(s.Log, tx)
""", """	tx.Time = time.Now().UnixNano()
	if n := len(s.Log); n > 1 && tx.Kind == TxSetKey && s.Log[n-1].Kind == tx.Kind &&
		s.Log[n-1].UUID == tx.UUID && s.Log[n-1].Key == tx.Key && s.Log[n-1].Value == tx.Value {
		s.Log[n-1] = tx
		return
	}
	s.Log = append(s.Log, tx)
""")],
 pkg="txlogs", test='''
package txlogs

import "testing"

func TestDemo(t *testing.T) {
	db := new(DB)
	id, err := db.Add()
	if err != nil {
		t.Fatal(err)
	}
	db.Set(id, "k", "v")
	at := db.Log[1].Time
	db.Set(id, "k", "v")
	if len(db.Log) != 3 || db.Log[1].Time != at {
		t.Fatal("an existing transaction was altered or dropped:", db.Log)
	}
}
''')

seed("b11-merge-tail-unchecked", "C16",
 "an entry deleted in one log and changed later in the other, the change being in the part of the other log that is left when the first is used up",
 "the rest of the second log is appended without looking for changes to deleted entries, so no conflict is reported",
 [("txlogs/txlogs.go", """	for ; j < lenb; j++ {
		c = append(c, b[j])
		checkConflict()
	}
""", """	c = append(c, b[j:]...)
""")],
 pkg="txlogs", test='''
package txlogs

import "testing"

func TestDemo(t *testing.T) {
	root := []Tx{{Time: 1, Kind: TxAdd, UUID: "x"}, {Time: 2, Kind: TxSetKey, UUID: "x", Key: "k", Value: "v"}}
	a := append(append([]Tx{}, root...), Tx{Time: 3, Kind: TxDelete, UUID: "x"})
	b := append(append([]Tx{}, root...), Tx{Time: 4, Kind: TxSetKey, UUID: "x", Key: "k", Value: "w"})
	if _, conflicts := Merge(a, b, nil); len(conflicts) != 1 {
		t.Fatal("a change after the deletion is not reported")
	}
}
''')

seed("b12-merge-conflict-hidden", "C16",
 "two entries deleted on one side and changed later on the other, found in the order of the later deletion first",
 "a conflict is taken for noted already if any conflict about a later deletion is, so resolving the first leaves the second one out of the questions of that round and, being about an earlier deletion, out of what is reported",
 [("txlogs/txlogs.go", """		for _, con := range conflicts {
			if con.Initial.Time == deleteTx.Time {
				return
			}
		}
""", """		for _, con := range conflicts {
			if con.Initial.Time >= deleteTx.Time {
				return
			}
		}
""")],
 pkg="txlogs", test='''
package txlogs

import "testing"

func TestDemo(t *testing.T) {
	root := []Tx{{Time: 1, Kind: TxAdd, UUID: "x"}, {Time: 2, Kind: TxAdd, UUID: "y"}}
	a := append(append([]Tx{}, root...), Tx{Time: 3, Kind: TxDelete, UUID: "x"}, Tx{Time: 4, Kind: TxDelete, UUID: "y"})
	b := append(append([]Tx{}, root...), Tx{Time: 5, Kind: TxSetKey, UUID: "y", Key: "k"}, Tx{Time: 6, Kind: TxSetKey, UUID: "x", Key: "k"})
	if _, conflicts := Merge(a, b, nil); len(conflicts) != 2 {
		t.Fatal("conflicts reported:", len(conflicts))
	}
}
''')

seed("b13-rename-half-unique", "C18",
 "an entry renamed to the name of one whose identifier is smaller than its own",
 "renaming compares the new name only with the entries after the renamed one, so half of all collisions are accepted",
 [("blobformat/blobs.go", """	for _, entry := range b.DB.Snapshot {
		blob := Blob(entry)
		if blob.Name() == newName {
			return ErrNameNotUnique
		}
	}

	_, ok""", """	for id, entry := range b.DB.Snapshot {
		blob := Blob(entry)
		if id > uuid && blob.Name() == newName {
			return ErrNameNotUnique
		}
	}

	_, ok""")],
 pkg="blobformat", test='''
package blobformat

import (
	"strconv"
	"testing"

	"github.com/aarondl/bpass/txlogs"
)

func TestDemo(t *testing.T) {
	b := Blobs{DB: new(txlogs.DB)}
	var ids []string
	for i := 0; i < 12; i++ {
		id, err := b.New("name" + strconv.Itoa(i))
		if err != nil {
			t.Fatal(err)
		}
		ids = append(ids, id)
	}
	for i, id := range ids {
		for j := range ids {
			if i == j {
				continue
			}
			if err := b.Rename(id, "name"+strconv.Itoa(j)); err != ErrNameNotUnique {
				t.Fatalf("%d was renamed to the name of %d: %v", i, j, err)
			}
		}
	}
}
''')

seed("b14-new-stale-names", "C18",
 "an entry created under the name of one that was created since the entries were last read",
 "the uniqueness check of a new name uses whatever snapshot there is instead of bringing it up to date",
 [("blobformat/blobs.go", """	if err = b.UpdateSnapshot(); err != nil {
		return "", err
	}

	for _, entry := range b.DB.Snapshot {
		blob := Blob(entry)
		if name""", """	if b.DB.Snapshot == nil {
		if err = b.UpdateSnapshot(); err != nil {
			return "", err
		}
	}

	for _, entry := range b.DB.Snapshot {
		blob := Blob(entry)
		if name""")],
 pkg="blobformat", test='''
package blobformat

import (
	"testing"

	"github.com/aarondl/bpass/txlogs"
)

func TestDemo(t *testing.T) {
	b := Blobs{DB: new(txlogs.DB)}
	if _, err := b.New("one"); err != nil {
		t.Fatal(err)
	}
	if _, err := b.New("two"); err != nil {
		t.Fatal(err)
	}
	if _, err := b.New("two"); err != ErrNameNotUnique {
		t.Fatal("a second entry got the name:", err)
	}
}
''')

seed("b15-label-undated", "C19",
 "a two-factor secret removed",
 "removing the two-factor secret of an entry is not dated, unlike removing any other field",
 [("blobformat/blobs.go", """	b.touchUpdated(uuid)
	b.DB.DeleteKey(uuid, key)
""", """	if key != KeyTwoFactor {
		b.touchUpdated(uuid)
	}
	b.DB.DeleteKey(uuid, key)
""")],
 pkg="blobformat", test='''
package blobformat

import (
	"testing"

	"github.com/aarondl/bpass/txlogs"
)

func TestDemo(t *testing.T) {
	b := Blobs{DB: new(txlogs.DB)}
	id, err := b.New("one")
	if err != nil {
		t.Fatal(err)
	}
	b.DB.Set(id, KeyTwoFactor, "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP")
	blob, err := b.MustFind(id)
	if err != nil {
		t.Fatal(err)
	}
	before := blob[KeyUpdated]
	if err = b.DeleteKey(id, KeyTwoFactor); err != nil {
		t.Fatal(err)
	}
	if blob, err = b.MustFind(id); err != nil {
		t.Fatal(err)
	}
	if blob[KeyUpdated] == before {
		t.Fatal("the time of the update stayed as it was")
	}
}
''')

seed("b41-view-forgets-removal", "C14",
 "looking at an earlier version of an entry one of whose keys was deleted before that",
 "an earlier version of an entry is rebuilt without the keys deleted in it, so it shows values it did not have any more",
 [("txlogs/txlogs.go", """		if s.Log[i].UUID != uuid {
			continue
		}
""", """		if s.Log[i].UUID != uuid || s.Log[i].Kind == TxDeleteKey {
			continue
		}
""")],
 pkg="txlogs", test='''
package txlogs

import "testing"

func TestDemo(t *testing.T) {
	db := new(DB)
	id, err := db.Add()
	if err != nil {
		t.Fatal(err)
	}
	db.Set(id, "k", "old")
	db.DeleteKey(id, "k")
	db.Set(id, "l", "new")
	e, err := db.EntrySnapshotAt(id, 1)
	if err != nil {
		t.Fatal(err)
	}
	if v, ok := e["k"]; ok {
		t.Fatalf("k is %q after it was deleted", v)
	}
}
''')

seed("b43-code-rounded-time", "C33",
 "a one-time code asked for in the second half of a window of thirty seconds",
 "the time a code is computed for is rounded instead of cut off, so half of the time the code shown is that of the next window",
 [("blobformat/blob.go", "totp.GenerateCode(key.Secret(), time.Now().UTC())", "totp.GenerateCode(key.Secret(), time.Now().UTC().Round(30*time.Second))")],
 pkg="blobformat", test='''
package blobformat

import (
	"testing"
	"time"

	"github.com/pquerna/otp/totp"
)

func TestDemo(t *testing.T) {
	b := Blob{KeyName: "e", KeyTwoFactor: "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP"}
	// in the second half of a window, not too close to its end
	for s := time.Now().Unix() % 30; s < 16 || s > 26; s = time.Now().Unix() % 30 {
		time.Sleep(200 * time.Millisecond)
	}
	want, err := totp.GenerateCode("JBSWY3DPEHPK3PXP", time.Now())
	if err != nil {
		t.Fatal(err)
	}
	got, err := b.TwoFactor()
	if err != nil || got != want {
		t.Fatalf("code %q, want %q (%v)", got, want, err)
	}
}
''')
