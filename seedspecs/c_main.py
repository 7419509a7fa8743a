def maintest(imports, body):
    return '''
package main

import (
%s
)

// without this a pinentry program that happens to be installed would be asked
var _ = os.Setenv("PINENTRY", "none")

type fakeUI struct{ lines []string }

func (f *fakeUI) Line(string) (string, error) {
	if len(f.lines) == 0 {
		return "", ErrEnd
	}
	l := f.lines[0]
	f.lines = f.lines[1:]
	return l, nil
}
func (f *fakeUI) LineHidden(p string) (string, error)     { return f.Line(p) }
func (f *fakeUI) AddHistory(string)                       {}
func (f *fakeUI) SetEntryCompleter(func(string) []string) {}
func (f *fakeUI) Close() error                            { return nil }

''' % "\n".join("\t%s" % (i if '"' in i else '"%s"' % i) for i in imports) + body.lstrip("\n")

BF, CR, TX = ["github.com/aarondl/bpass/" + x for x in ("blobformat", "crypt", "txlogs")]

seed("b16-second-user-wrapped-wrong", "C05",
 "a second user added to a file that already has one, and that user opening the file",
 "the key of a newly added user is derived from the passphrase of the session instead of the new user's, so the new user can never open the file",
 [("commands.go", """			errColor.Println("refusing to use empty password")
			return nil
		}

		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
		if err != nil {
			return err
		}
	}

	mkey,""", """			errColor.Println("refusing to use empty password")
			return nil
		}

		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(u.pass))
		if err != nil {
			return err
		}
	}

	mkey,""")],
 test=maintest([BF, CR, TX, "testing", "os"], '''
func TestDemo(t *testing.T) {
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte("alicepass"))
	if err != nil {
		t.Fatal(err)
	}
	u := &uiContext{in: &fakeUI{lines: []string{"m", "bobpass", "bobpass"}}, out: os.Stdout, pass: "alicepass", key: key, salt: salt, store: blobformat.Blobs{DB: new(txlogs.DB)}}
	if err = u.adduser("alice"); err != nil {
		t.Fatal(err)
	}
	if err = u.adduser("bob"); err != nil {
		t.Fatal(err)
	}
	params, err := u.makeParams()
	if err != nil {
		t.Fatal(err)
	}
	ct, err := crypt.Encrypt(cryptVersion, params, []byte("{}"))
	if err != nil {
		t.Fatal(err)
	}
	if _, _, _, err = crypt.Decrypt([]byte("alice"), []byte("alicepass"), nil, nil, ct); err != nil {
		t.Fatal("alice:", err)
	}
	if _, _, _, err = crypt.Decrypt([]byte("bob"), []byte("bobpass"), nil, nil, ct); err != nil {
		t.Fatal("bob:", err)
	}
}
'''))

seed("b17-rekey-other-keeps-salt", "C05",
 "rekeying another user of a file with several users, and that user opening the file afterwards",
 "the salt stored for another user after a rekey is the session's, not the one the new key was derived with",
 [("commands.go", """		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
		if err != nil {
			return err
		}

		u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
		u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
	}

	infoColor.Println("key updated""", """		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
		if err != nil {
			return err
		}

		u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(u.salt))
		u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
	}

	infoColor.Println("key updated""")],
 test=maintest([BF, CR, TX, "testing", "os"], '''
func TestDemo(t *testing.T) {
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte("alicepass"))
	if err != nil {
		t.Fatal(err)
	}
	ui := &fakeUI{lines: []string{"m", "bobpass", "bobpass", "m", "bobnew", "bobnew"}}
	u := &uiContext{in: ui, out: os.Stdout, pass: "alicepass", key: key, salt: salt, store: blobformat.Blobs{DB: new(txlogs.DB)}}
	if err = u.adduser("alice"); err != nil {
		t.Fatal(err)
	}
	if err = u.adduser("bob"); err != nil {
		t.Fatal(err)
	}
	if err = u.rekey("bob"); err != nil {
		t.Fatal(err)
	}
	params, err := u.makeParams()
	if err != nil {
		t.Fatal(err)
	}
	ct, err := crypt.Encrypt(cryptVersion, params, []byte("{}"))
	if err != nil {
		t.Fatal(err)
	}
	if _, _, _, err = crypt.Decrypt([]byte("bob"), []byte("bobnew"), nil, nil, ct); err != nil {
		t.Fatal("bob:", err)
	}
}
'''))

seed("b18-past-cuts-early", "C06",
 "a time given on the command line that is exactly the time of a change",
 "a file opened at the very instant of a change is shown without that change",
 [("main.go", "			if tx.Time > historyUnix {", "			if tx.Time >= historyUnix {")],
 test=maintest([CR, TX, "testing", "os", "path/filepath", "time"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	db := new(txlogs.DB)
	id, err := db.Add()
	if err != nil {
		t.Fatal(err)
	}
	db.Set(id, "name", "one")
	db.Set(id, "name", "two")
	at := time.Now().Add(-time.Hour)
	for i := range db.Log {
		db.Log[i].Time = at.Add(time.Duration(i) * time.Minute).UnixNano()
	}
	pt, err := db.Save()
	if err != nil {
		t.Fatal(err)
	}
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte("pass"))
	if err != nil {
		t.Fatal(err)
	}
	ct, err := crypt.Encrypt(cryptVersion, &crypt.Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, pt)
	if err != nil {
		t.Fatal(err)
	}
	flagFile = filepath.Join(dir, "f")
	if err = os.WriteFile(flagFile, ct, 0600); err != nil {
		t.Fatal(err)
	}
	historyTime = time.Unix(0, db.Log[1].Time)
	u := &uiContext{in: &fakeUI{lines: []string{"pass"}}, out: os.Stdout, readOnly: true, filename: flagFile, shortFilename: "f"}
	if err = u.loadBlob(); err != nil {
		t.Fatal(err)
	}
	if got := u.store.DB.Snapshot[id]["name"]; got != "one" {
		t.Fatalf("at the time of the change the name is %q", got)
	}
}
'''))

seed("b19-label-in-past", "C06",
 "the label command in a session opened at a time in the past",
 "the label command is let through in read-only mode although it changes the log",
 [("repl.go", """	"label": {
		Run:""", """	"label": {
		ReadOnly: true,
		Run:""")],
 test=maintest([BF, TX, "testing", "os"], '''
func TestDemo(t *testing.T) {
	db := new(txlogs.DB)
	store := blobformat.Blobs{DB: db}
	if _, err := store.New("one"); err != nil {
		t.Fatal(err)
	}
	n := len(db.Log)
	r := repl{ctx: &uiContext{in: &fakeUI{lines: []string{"label one", "new"}}, out: os.Stdout, readOnly: true, store: store}}
	if err := r.run(); err != nil {
		t.Fatal(err)
	}
	if len(db.Log) != n {
		t.Fatal("the log changed in read-only mode")
	}
}
'''))

seed("b20-plain-recovery-copy", "C07",
 "saving while encryption fails",
 "when encrypting fails the plain contents are written next to the file so that nothing is lost",
 [("main.go", """	data, err = crypt.Encrypt(cryptVersion, params, data)
	if err != nil {
		return err
	}
""", """	plain := data
	data, err = crypt.Encrypt(cryptVersion, params, data)
	if err != nil {
		// Don't lose the changes
		_ = writeFile(flagFile+".recover", plain)
		return err
	}
""")],
 test=maintest([BF, TX, "testing", "os", "path/filepath"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	flagFile = filepath.Join(dir, "f")
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	if _, err := store.New("secret"); err != nil {
		t.Fatal(err)
	}
	u := &uiContext{in: &fakeUI{}, out: os.Stdout, store: store, key: []byte("short"), salt: []byte("short")}
	if err := u.saveBlob(); err == nil {
		t.Fatal("saving with a bad key worked")
	}
	fs, err := os.ReadDir(dir)
	if err != nil {
		t.Fatal(err)
	}
	if len(fs) != 0 {
		t.Fatal("left behind:", fs[0].Name())
	}
}
'''))

seed("b21-edit-file-readable", "C08",
 "another user reading the temporary directory while a value is edited, and a umask that lets the group read",
 "the temporary file a value is edited in can be read by the owner's group",
 [("commands.go", "os.O_CREATE|os.O_EXCL|os.O_RDWR, 0600)", "os.O_CREATE|os.O_EXCL|os.O_RDWR, 0640)")],
 test=maintest([BF, TX, "testing", "os", "path/filepath", "strings", "syscall"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	syscall.Umask(0)
	ed := filepath.Join(dir, "ed")
	out := filepath.Join(dir, "out")
	if err := os.WriteFile(ed, []byte("#!/bin/sh\\nstat -c %a \\"$1\\" > "+out+"\\n"), 0700); err != nil {
		t.Fatal(err)
	}
	os.Setenv("EDITOR", ed)
	os.Setenv("TMPDIR", dir)
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	if _, err := store.New("one"); err != nil {
		t.Fatal(err)
	}
	u := &uiContext{in: &fakeUI{}, out: os.Stdout, store: store}
	if err := u.edit("one", "notes"); err != nil {
		t.Fatal(err)
	}
	mode, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.HasSuffix(strings.TrimSpace(string(mode)), "00") {
		t.Fatalf("mode of the temporary file: %s", mode)
	}
}
'''))

SYNC = '''
func sealed(t *testing.T, pass string, db *txlogs.DB) []byte {
	pt, err := db.Save()
	if err != nil {
		t.Fatal(err)
	}
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte(pass))
	if err != nil {
		t.Fatal(err)
	}
	ct, err := crypt.Encrypt(cryptVersion, &crypt.Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, pt)
	if err != nil {
		t.Fatal(err)
	}
	return ct
}

func session(t *testing.T, pass, remote string, lines ...string) *uiContext {
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	id, err := store.New("remote")
	if err != nil {
		t.Fatal(err)
	}
	store.DB.Set(id, blobformat.KeySync, "true")
	store.DB.Set(id, blobformat.KeyURL, "file://"+remote)
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte(pass))
	if err != nil {
		t.Fatal(err)
	}
	return &uiContext{in: &fakeUI{lines: lines}, out: os.Stdout, store: store, pass: pass, key: key, salt: salt}
}
'''

seed("b22-undecrypted-remote-pushed", "C10",
 "a remote whose passphrase the user does not know, so that it is passed over while pulling",
 "a remote for which no passphrase was given stays on the list to push to and is overwritten without having been merged",
 [("sync.go", """		} else if len(pt) == 0 {
			errColor.Printf("failed to decrypt %q: %v\\n", name, err)
			syncs[i] = ""
			continue
""", """		} else if len(pt) == 0 {
			errColor.Printf("failed to decrypt %q: %v\\n", name, err)
			continue
""")],
 test=maintest([BF, CR, TX, "bytes", "testing", "os", "path/filepath"], SYNC + '''
func TestDemo(t *testing.T) {
	remote := filepath.Join(t.TempDir(), "remote")
	db := new(txlogs.DB)
	if _, err := (blobformat.Blobs{DB: db}).New("only there"); err != nil {
		t.Fatal(err)
	}
	ct := sealed(t, "unknown", db)
	if err := os.WriteFile(remote, ct, 0600); err != nil {
		t.Fatal(err)
	}
	u := session(t, "mine", remote, "wrong", "")
	if err := u.sync("", true, true); err != nil {
		t.Fatal(err)
	}
	after, err := os.ReadFile(remote)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(ct, after) {
		t.Fatal("a remote that was never opened was overwritten")
	}
}
'''))

seed("b23-aborted-merge-pushed", "C10",
 "a single remote whose log has nothing in common with the local one, and the user declining to join them",
 "an aborted merge of a single remote goes on to push, overwriting the remote the user declined to merge",
 [("sync.go", """		errColor.Println("aborting sync, failed to merge logs:", err)
		return nil
""", """		errColor.Println("aborting sync, failed to merge logs:", err)
		if len(blobs) > 1 {
			return nil
		}
""")],
 test=maintest([BF, CR, TX, "bytes", "testing", "os", "path/filepath"], SYNC + '''
func TestDemo(t *testing.T) {
	remote := filepath.Join(t.TempDir(), "remote")
	db := new(txlogs.DB)
	if _, err := (blobformat.Blobs{DB: db}).New("only there"); err != nil {
		t.Fatal(err)
	}
	ct := sealed(t, "mine", db)
	if err := os.WriteFile(remote, ct, 0600); err != nil {
		t.Fatal(err)
	}
	u := session(t, "mine", remote, "n", "n")
	if err := u.sync("", true, true); err != nil {
		t.Fatal(err)
	}
	after, err := os.ReadFile(remote)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(ct, after) {
		t.Fatal("a remote the user declined to merge was overwritten")
	}
}
'''))

seed("b24-adopted-key-of-session", "C11",
 "a remote without users that was re-passworded elsewhere and changed later than the local file",
 "when the credentials of a remote are taken over, the key and salt are those cached in the session, not the ones the remote was opened with",
 [("merging.go", "			m.Key, m.Salt = r.Params.Keys[r.Params.User], r.Params.Salts[r.Params.User]", "			m.Key, m.Salt = r.Creds.Key, r.Creds.Salt")],
 test=maintest([BF, CR, TX, "testing", "os", "path/filepath"], SYNC + '''
func TestDemo(t *testing.T) {
	remote := filepath.Join(t.TempDir(), "remote")
	u := session(t, "mine", remote, "theirs")
	db := &txlogs.DB{Log: append([]txlogs.Tx{}, u.store.DB.Log...)}
	db.Set(db.Log[0].UUID, "notes", "later")
	if err := os.WriteFile(remote, sealed(t, "theirs", db), 0600); err != nil {
		t.Fatal(err)
	}
	if err := u.sync("", true, true); err != nil {
		t.Fatal(err)
	}
	after, err := os.ReadFile(remote)
	if err != nil {
		t.Fatal(err)
	}
	if _, _, _, err = crypt.Decrypt(nil, []byte(u.pass), nil, nil, after); err != nil {
		t.Fatal("what was pushed cannot be opened with the passphrase of the session:", err)
	}
}
'''))

HOST = '''
type fakeKey struct{ typ, blob string }

func (k fakeKey) Type() string                         { return k.typ }
func (k fakeKey) Marshal() []byte                      { return []byte(k.blob) }
func (k fakeKey) Verify([]byte, *ssh.Signature) error { return nil }
'''
seed("b25-host-key-prefix", "C12",
 "a known host that presents another key while a line for the same host and a shortened hash is remembered",
 "the remembered key hash is compared as a prefix, so a truncated or empty hash accepts any key",
 [("sync.go", "		if vals[3] != keyHash {", "		if !strings.HasPrefix(keyHash, vals[3]) {")],
 test=maintest(["crypto/sha256", "fmt", "net", "testing", '"golang.org/x/crypto/ssh"'], HOST + '''
func TestDemo(t *testing.T) {
	sum := fmt.Sprintf("%x", sha256.Sum256([]byte("evil")))
	h := &hostAsker{u: &uiContext{in: &fakeUI{}}, known: "host:22 1.2.3.4:22 ssh-rsa " + sum[:4]}
	if err := h.callback("host:22", &net.TCPAddr{}, fakeKey{"ssh-rsa", "evil"}); err == nil {
		t.Fatal("a key that is not the remembered one was accepted")
	}
}
'''))
seed("b26-host-key-type-skipped", "C12",
 "a remembered host that presents a key of another type",
 "a remembered host with a key of another type counts as unknown, so the user is asked to accept what should be refused",
 [("sync.go", """		if vals[2] != keyType {
			return errors.New("known host's key type has changed, could be a mitm attack")
		}
""", """		if vals[2] != keyType {
			continue
		}
""")],
 test=maintest(["net", "testing", '"golang.org/x/crypto/ssh"'], HOST + '''
func TestDemo(t *testing.T) {
	h := &hostAsker{u: &uiContext{in: &fakeUI{lines: []string{"y"}}}, known: "host:22 1.2.3.4:22 ssh-ed25519 abcd"}
	if err := h.callback("host:22", &net.TCPAddr{}, fakeKey{"ssh-rsa", "evil"}); err == nil {
		t.Fatal("another key of a remembered host was accepted")
	}
}
'''))

MERGE = '''
func tx(at int64, kind txlogs.TxKind, id, key string) txlogs.Tx {
	return txlogs.Tx{Time: at, Kind: kind, UUID: id, Key: key}
}
'''
seed("b27-merge-anyway-short-log", "C17",
 "a local log with a single transaction and a remote log without a common start, and the user answering no",
 "the question whether to join logs without a common start is asked but a no is ignored for a new local file",
 [("merging.go", "				if !yes {\n", "				if !yes && len(local) > 1 {\n")],
 test=maintest([TX, "os", "testing"], MERGE + '''
func TestDemo(t *testing.T) {
	u := &uiContext{in: &fakeUI{lines: []string{"n", "n"}}, out: os.Stdout}
	a := []txlogs.Tx{tx(1, txlogs.TxAdd, "a", "")}
	b := []txlogs.Tx{tx(2, txlogs.TxAdd, "b", "")}
	if _, err := mergeLogs(u, a, b); err == nil {
		t.Fatal("the logs were joined although the answer was no")
	}
}
'''))

seed("b28-bad-totp-announced", "C20",
 "setting the two factor secret to something that is refused",
 "after saying that the secret is not valid the command goes on to announce that it was set",
 [("commands.go", """		if err := u.store.SetTwofactor(uuid, value); err != nil {
			errColor.Println(err)
			return nil
		}""", """		if err := u.store.SetTwofactor(uuid, value); err != nil {
			errColor.Println(err)
			break
		}""")],
 test=maintest([BF, TX, "github.com/aarondl/color", "testing", "os", "path/filepath", "strings"], '''
func TestDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "out"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	old := os.Stdout
	os.Stdout, color.Writer = f, f
	defer func() { os.Stdout, color.Writer = old, old }()
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	if _, err := store.New("one"); err != nil {
		t.Fatal(err)
	}
	u := &uiContext{in: &fakeUI{}, out: f, store: store}
	if err := u.set("one", blobformat.KeyTwoFactor, "otpauth://totp/%zz"); err != nil {
		return // handed on is fine as well
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		t.Fatal(err)
	}
	_, blob, err := store.FindByName("one")
	if err != nil {
		t.Fatal(err)
	}
	if blob[blobformat.KeyTwoFactor] == "" && strings.Contains(string(b), "set "+blobformat.KeyTwoFactor+" =") {
		t.Fatalf("announced although refused: %q", b)
	}
}
'''))

seed("b29-edit-wipe-runes", "C22",
 "an old value with characters of several bytes that is longer than the new one",
 "the temporary file is overwritten with as many bytes as the old value has characters, so its end stays readable",
 [("commands.go", "	maxLen := len(oldValue)\n", "	maxLen := len([]rune(oldValue))\n")],
 test=maintest([BF, TX, "github.com/aarondl/color", "testing", "os", "path/filepath", "strings"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	keep := filepath.Join(dir, "keep")
	ed := filepath.Join(dir, "ed")
	// a second link shows what is in the file when its name is removed
	if err := os.WriteFile(ed, []byte("#!/bin/sh\\nln \\"$1\\" "+keep+"\\nexit 1\\n"), 0700); err != nil {
		t.Fatal(err)
	}
	os.Setenv("EDITOR", ed)
	os.Setenv("TMPDIR", dir)
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	id, err := store.New("one")
	if err != nil {
		t.Fatal(err)
	}
	store.DB.Set(id, "notes", strings.Repeat("\\u00e9", 20)+"secret")
	u := &uiContext{in: &fakeUI{}, out: os.Stdout, store: store}
	if err := u.edit("one", "notes"); err != nil {
		t.Fatal(err)
	}
	left, err := os.ReadFile(keep)
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(string(left), "secret") {
		t.Fatalf("left in the file: %q", left)
	}
}
'''))

seed("b30-edit-editor-failed", "C22",
 "an editor that exits with status 1",
 "what a failed editor left in the file is stored as the new value",
 [("commands.go", "	if editExit != 0 {\n", "	if editExit > 1 {\n")],
 test=maintest([BF, TX, "testing", "os", "path/filepath"], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	ed := filepath.Join(dir, "ed")
	if err := os.WriteFile(ed, []byte("#!/bin/sh\\necho garbage > \\"$1\\"\\nexit 1\\n"), 0700); err != nil {
		t.Fatal(err)
	}
	os.Setenv("EDITOR", ed)
	os.Setenv("TMPDIR", dir)
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	id, err := store.New("one")
	if err != nil {
		t.Fatal(err)
	}
	store.DB.Set(id, "notes", "good")
	u := &uiContext{in: &fakeUI{}, out: os.Stdout, store: store}
	if err := u.edit("one", "notes"); err != nil {
		t.Fatal(err)
	}
	if err := store.UpdateSnapshot(); err != nil {
		t.Fatal(err)
	}
	if got := store.Snapshot[id]["notes"]; got != "good" {
		t.Fatalf("stored: %q", got)
	}
}
'''))

seed("b31-rmlabel-syntax", "C25",
 "the rmlabel command with a single word outside of an entry",
 "a missing argument of rmlabel is not noticed and the program crashes",
 [("repl.go", """			if len(args) < 1 || (len(name) == 0 && len(args) < 2) {
				errColor.Println("syntax: rmlabel""", """			if len(args) < 1 {
				errColor.Println("syntax: rmlabel""")],
 test=maintest([BF, TX, "testing", "os"], '''
func TestDemo(t *testing.T) {
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	if _, err := store.New("one"); err != nil {
		t.Fatal(err)
	}
	r := repl{ctx: &uiContext{in: &fakeUI{lines: []string{"rmlabel one"}}, out: os.Stdout, store: store}}
	if err := r.run(); err != nil {
		t.Fatal(err)
	}
}
'''))

seed("b32-menu-negative", "C25",
 "a negative number typed at a menu",
 "a negative choice is handed out and used as an index",
 [("uihelpers.go", "	if integer < 0 || integer >= len(items) {", "	if integer >= len(items) {")],
 test=maintest(["testing", "os"], '''
func TestDemo(t *testing.T) {
	u := &uiContext{in: &fakeUI{lines: []string{"-1", "0", "0"}}, out: os.Stdout}
	i, err := u.getMenuChoice("? ", []string{"a", "b"})
	if err == nil && (i < 0 || i > 1) {
		t.Fatal("chosen:", i)
	}
}
'''))

RUN = '''
// started builds the program and runs it on file with the commands in stdin.
func started(t *testing.T, file, stdin string) (code int, dir string) {
	dir = t.TempDir()
	write := func(n, s string) {
		if err := os.WriteFile(filepath.Join(dir, n), []byte("#!/bin/sh\\n"+s), 0755); err != nil {
			t.Fatal(err)
		}
	}
	write("pe", `echo "OK Pleased to meet you"
while read -r l; do case "$l" in GETPIN*) echo "D pass"; echo OK;; BYE*) echo OK; exit 0;; *) echo OK;; esac; done
`)
	for _, n := range []string{"xclip", "xsel", "wl-copy", "wl-paste"} {
		write(n, "cat > "+dir+"/clip\\n")
	}
	if out, err := exec.Command("go", "build", "-o", dir+"/bpass", ".").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	c := exec.Command(dir+"/bpass", "-f", filepath.Join(dir, file))
	c.Env = append(os.Environ(), "PINENTRY="+dir+"/pe", "PATH="+dir+":"+os.Getenv("PATH"), "HOME="+dir, "BPASS=")
	c.Stdin = strings.NewReader(stdin)
	out, _ := c.CombinedOutput()
	t.Logf("%s", out)
	return c.ProcessState.ExitCode(), dir
}

'''
RUNI = ["testing", "os", "os/exec", "path/filepath", "strings"]

seed("b33-save-error-shadowed", "C21",
 "saving fails when the session ends, because the directory is gone or not writable",
 "the program ends with success although the file could not be saved",
 [("main.go", "	if err = ctx.saveBlob(); err != nil {", "	if err := ctx.saveBlob(); err != nil {")],
 test=maintest(RUNI, RUN + '''
func TestDemo(t *testing.T) {
	if code, _ := started(t, "gone/file", "exit\\n"); code == 0 {
		t.Fatal("success although nothing was saved")
	}
}
'''))

seed("b34-save-failed-clip-kept", "C27",
 "saving fails at the end of a session in which something was copied",
 "when saving fails the program ends at once and what was copied stays on the clipboard",
 [("main.go", """		fmt.Printf("failed to save file: %+v\\n", err)
		goto Exit""", """		fmt.Printf("failed to save file: %+v\\n", err)
		os.Exit(1)""")],
 test=maintest(RUNI, RUN + '''
func TestDemo(t *testing.T) {
	_, dir := started(t, "gone/file", "exit\\n")
	if _, err := os.Stat(filepath.Join(dir, "clip")); err != nil {
		t.Fatal("the clipboard was not cleared:", err)
	}
}
'''))

seed("b35-windows-noctty", "C26",
 "building for windows",
 "the code for opening links on windows uses a setting that only unix systems have, so the program no longer builds there",
 [("osutil/osutil_windows.go", """		Files: []*os.File{nil, nil, nil},
""", """		Files: []*os.File{nil, nil, nil},
		Sys:   &syscall.SysProcAttr{Noctty: true},
"""), ("osutil/osutil_windows.go", """	"os/exec"
""", """	"os/exec"
	"syscall"
""")],
 test=maintest(["testing", "os", "os/exec"], '''
func TestDemo(t *testing.T) {
	c := exec.Command("go", "build", "-o", os.DevNull, "./osutil")
	c.Env = append(os.Environ(), "GOOS=windows", "CGO_ENABLED=0")
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v\\n%s", err, out)
	}
}
'''))

seed("b36-import-lost-on-error", "C21",
 "importing from lastpass when the lastpass program fails",
 "the program ends with success although nothing could be imported",
 [("main.go", """		if err = importLastpass(ctx); err != nil {
			fmt.Printf("error occurred: %+v\\nexiting without saving", err)
			goto Exit
		}""", """		if err := importLastpass(ctx); err != nil {
			fmt.Printf("error occurred: %+v\\nexiting without saving", err)
			goto Exit
		}""")],
 test=maintest(RUNI, RUN.replace('"-f", filepath.Join(dir, file))', '"-f", filepath.Join(dir, file), "lpassimport")') + '''
func TestDemo(t *testing.T) {
	if code, _ := started(t, "file", ""); code == 0 {
		t.Fatal("success although nothing was imported")
	}
}
'''))

USERS = '''
func twoUsers(t *testing.T) (*uiContext, map[string]string) {
	master, ivm, err := crypt.NewMasterKey(cryptVersion)
	if err != nil {
		t.Fatal(err)
	}
	u := &uiContext{user: "alice", master: master, ivm: ivm, store: blobformat.Blobs{DB: new(txlogs.DB)}}
	passes := map[string]string{"alice": "alicepass", "bob": "bobpass"}
	for name, pass := range passes {
		key, salt, err := crypt.DeriveKey(cryptVersion, []byte(pass))
		if err != nil {
			t.Fatal(err)
		}
		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
		if err != nil {
			t.Fatal(err)
		}
		uuid, err := u.store.NewUser(name)
		if err != nil {
			t.Fatal(err)
		}
		u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
		u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
		if name == u.user {
			u.pass, u.key, u.salt = pass, key, salt
		}
	}
	return u, passes
}

func openAll(t *testing.T, u *uiContext, passes map[string]string) {
	params, err := u.makeParams()
	if err != nil {
		t.Fatal(err)
	}
	ct, err := crypt.Encrypt(cryptVersion, params, []byte("contents"))
	if err != nil {
		t.Fatal(err)
	}
	for name, pass := range passes {
		_, _, pt, err := crypt.Decrypt([]byte(name), []byte(pass), nil, nil, ct)
		if err != nil || string(pt) != "contents" {
			t.Error(name, "cannot open the file:", err)
		}
	}
}
'''
USERSI = [BF, CR, TX, "testing", "os", "encoding/hex"]

seed("b37-shared-name-hash", "C28",
 "a file with two users or more, opened by one whose entry was not the last one gone through",
 "the name hashes of all users in the header of a saved file share one array, so only the last user can open it",
 [("uicontext.go", """	index := 0
	for uuid""", """	index := 0
	var username [sha256.Size]byte
	for uuid"""), ("uicontext.go", "username := sha256", "username = sha256")],
 test=maintest(USERSI, USERS + '''
func TestDemo(t *testing.T) {
	u, passes := twoUsers(t)
	openAll(t, u, passes)
}
'''))

seed("b38-header-salt-of-session", "C28",
 "the entry of the session's own user was rekeyed elsewhere and arrived by a merge that kept the session's credentials",
 "the header of a saved file has the salt cached in the session for the session's own user, not the one its wrapped key belongs to",
 [("uicontext.go", """			p.User = index
			p.Keys = append(p.Keys, u.key)""", """			p.User = index
			salt = u.salt
			p.Keys = append(p.Keys, u.key)""")],
 test=maintest(USERSI, USERS + '''
func TestDemo(t *testing.T) {
	u, passes := twoUsers(t)
	// what a merge brings
	uuid, _, err := u.store.FindUser("alice")
	if err != nil {
		t.Fatal(err)
	}
	passes["alice"] = "newpass"
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte("newpass"))
	if err != nil {
		t.Fatal(err)
	}
	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
	if err != nil {
		t.Fatal(err)
	}
	u.store.DB.Set(uuid, blobformat.KeySalt, hex.EncodeToString(salt))
	u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
	u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
	openAll(t, u, passes)
}
'''))

seed("b42-delete-self-search", "C30",
 "a user deleting himself in a file that has another user whose name looks different",
 "whether a user is the last one is asked of a search by his own name, so he can delete himself while there are others, who cannot open the file then",
 [("commands.go", """		users, err := u.store.Users()
		if err != nil {
			return err
		}

		if len(users) > 1 {
			errColor""", """		users, err := u.store.Search(name)
		if err != nil {
			return err
		}

		if len(users) > 1 {
			errColor""")],
 test=maintest([BF, TX, "testing", "os"], '''
func TestDemo(t *testing.T) {
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	for _, n := range []string{"me", "other"} {
		if _, err := store.NewUser(n); err != nil {
			t.Fatal(err)
		}
	}
	u := &uiContext{in: &fakeUI{lines: []string{"user/me"}}, out: os.Stdout, store: store, user: "me", master: make([]byte, 32), ivm: make([]byte, 16)}
	if err := u.deleteEntry("user/me"); err != nil {
		t.Fatal(err)
	}
	if uuid, _, err := store.FindUser("me"); err != nil || len(uuid) == 0 || len(u.master) == 0 {
		t.Fatal("the user deleted himself while there is another one")
	}
}
'''))

seed("b44-login-raw-secret", "C33",
 "logging in with an entry whose stored two-factor key is not one of time-based codes or is damaged",
 "when no code can be computed the login goes on and copies the stored two-factor secret itself to the clipboard",
 [("commands.go", """				value, err = blob.TwoFactor()
				if err != nil {
					return err
				}
""", """				code, err := blob.TwoFactor()
				if err != nil {
					errColor.Println(err)
				} else {
					value = code
				}
""")],
 test=maintest([BF, TX, "testing", "os", "github.com/atotto/clipboard", "path/filepath"], '''
func TestDemo(t *testing.T) {
	// stands in for the clipboard
	dir := t.TempDir()
	out := filepath.Join(dir, "copied")
	script := "#!/bin/sh\\ncat >> '" + out + "'\\necho >> '" + out + "'\\n"
	for _, n := range []string{"xsel", "xclip", "wl-copy", "wl-paste"} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(script), 0700); err != nil {
			t.Fatal(err)
		}
	}
	store := blobformat.Blobs{DB: new(txlogs.DB)}
	id, err := store.New("e")
	if err != nil {
		t.Fatal(err)
	}
	store.DB.Set(id, blobformat.KeyTwoFactor, "otpauth://hotp/x?secret=JBSWY3DPEHPK3PXP")
	_ = clipboard.Unsupported
	u := &uiContext{in: &fakeUI{}, out: os.Stdout, store: store}
	if err := u.login("e"); err == nil {
		t.Fatal("the login went on although there was no code")
	}
}
'''))
