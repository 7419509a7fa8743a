seed("b01-digest-prefix", "C01",
 "a payload altered without changing the first bytes of its digest: needs the key, so the demonstration builds such a file in-package",
 "the single-user reader compares only the first half of the sha512 digest, so a file whose second digest half is wrong still yields its payload",
 [("crypt/crypto_v1.go", "	if !bytes.Equal(origShaSum, shaSum) {", "	if !bytes.HasPrefix(origShaSum, shaSum[:sha256.Size]) {")],
 pkg="crypt", test='''
package crypt

import (
	"bytes"
	"crypto/cipher"
	"crypto/rand"
	"crypto/sha512"
	"testing"

	"github.com/aarondl/bpass/pkcs7"
)

func TestDemo(t *testing.T) {
	c, _ := getVersion(1)
	key := bytes.Repeat([]byte{7}, c.keySize)
	salt := bytes.Repeat([]byte{9}, c.saltSize)
	pt := []byte("hello world")
	enc, err := Encrypt(1, &Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, pt)
	if err != nil {
		t.Fatal(err)
	}
	hdr := enc[:magicLen+c.saltSize+c.blockSize]
	iv := hdr[magicLen+c.saltSize:]
	sha := sha512.New()
	sha.Write(hdr)
	sha.Write(pt)
	sum := sha.Sum(nil)
	rand.Read(sum[40:])
	work := append(sum, pt...)
	suite, _ := cipherSuite(c)
	ciphers, _ := makeCiphers(key, suite)
	off := 0
	for i, b := range ciphers {
		n := suite[i].BlockSize
		work = pkcs7.Pad(work, n)
		cipher.NewCBCEncrypter(b, iv[off:off+n]).CryptBlocks(work, work)
		off += n
	}
	if _, _, _, err = Decrypt(nil, nil, key, salt, append(append([]byte{}, hdr...), work...)); err == nil {
		t.Fatal("a file with a wrong digest was decrypted")
	}
}
''')

seed("b02-multi-digest-skips-ivm", "C01",
 "a multi-user file, and both the writer and the reader changed together",
 "reader and writer of multi-user files agree to leave the last header field, the payload IV, out of the digest, so flipping IV bits changes the first payload block's decryption chain undetected for the digest-covered header",
 [("crypt/crypto_v1.go", "	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)+c.blockSize])", "	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)])"),
  ("crypt/crypto_v1.go", """	// Plain text header is complete, encrypt payload
	sha := sha512.New()
	_, _ = sha.Write(plaintextHeader)""", """	// Plain text header is complete, encrypt payload
	sha := sha512.New()
	_, _ = sha.Write(plaintextHeader[:offset])""")],
 pkg="crypt", test='''
package crypt

import (
	"bytes"
	"crypto/cipher"
	"crypto/sha512"
	"testing"

	"github.com/aarondl/bpass/pkcs7"
)

func TestDemo(t *testing.T) {
	c, _ := getVersion(1)
	key := bytes.Repeat([]byte{7}, c.keySize)
	salt := bytes.Repeat([]byte{9}, c.saltSize)
	master, ivm, err := NewMasterKey(1)
	if err != nil {
		t.Fatal(err)
	}
	mkey, iv, err := EncryptMasterKey(1, key, master)
	if err != nil {
		t.Fatal(err)
	}
	p := &Params{NUsers: 1, Users: [][]byte{bytes.Repeat([]byte{1}, 32)}, Keys: [][]byte{key}, Salts: [][]byte{salt},
		IVs: [][]byte{iv}, MKeys: [][]byte{mkey}, IVM: ivm, Master: master}
	pt := []byte("hello world")
	enc, err := Encrypt(1, p, pt)
	if err != nil {
		t.Fatal(err)
	}
	// the digest inside the file has to cover the whole header
	off := len(enc) - len(enc)%8
	_ = off
	hl := magicLen + 32 + c.saltSize + c.blockSize + c.keySize + c.blockSize
	work := append([]byte{}, enc[hl:]...)
	suite, _ := cipherSuite(c)
	ciphers, _ := makeCiphers(master, suite)
	o := len(ivm)
	for i := len(ciphers) - 1; i >= 0; i-- {
		n := ciphers[i].BlockSize()
		cipher.NewCBCDecrypter(ciphers[i], ivm[o-n:o]).CryptBlocks(work, work)
		o -= n
		if work, err = pkcs7.Unpad(work); err != nil {
			t.Fatal(err)
		}
	}
	sha := sha512.New()
	sha.Write(enc[:hl])
	sha.Write(pt)
	if !bytes.Equal(sha.Sum(nil), work[:64]) {
		t.Fatal("the digest leaves part of the header out")
	}
}
''')

seed("b03-short-salt", "C02",
 "nothing but looking at all the bytes of a salt; lengths and inequality of salts stay as they were",
 "only the first half of a salt is random, the rest stays zero",
 [("crypt/crypto.go", "	if n, err := rand.Read(salt); n != c.saltSize || err != nil {", "	if n, err := rand.Read(salt[:len(salt)/2]); n != len(salt)/2 || err != nil {")],
 pkg="crypt", test='''
package crypt

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	_, salt, err := DeriveKey(1, []byte("pass"))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i+8 <= len(salt); i++ {
		if bytes.Equal(salt[i:i+8], make([]byte, 8)) {
			t.Fatalf("salt is not random from byte %d on: %x", i, salt)
		}
	}
}
''')

seed("b04-iv-reused-for-wrap", "C02",
 "wrapping the master key twice with the same user key, as rekeying or adding a user does",
 "the IV that wraps a master key is derived from a package-level buffer filled once, so later wraps reuse it",
 [("crypt/crypto_v1.go", """	iv = make([]byte, c.blockSize)
	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		return nil, nil, fmt.Errorf("error generating randomness for iv: %w", err)
	}

	ivOffset := 0
""", """	iv = make([]byte, c.blockSize)
	if len(wrapIV) != c.blockSize {
		if _, err := io.ReadFull(rand.Reader, iv); err != nil {
			return nil, nil, fmt.Errorf("error generating randomness for iv: %w", err)
		}
		wrapIV = iv
	}
	copy(iv, wrapIV)

	ivOffset := 0
"""), ("crypt/crypto_v1.go", "// newMasterKeyV1 generates", "var wrapIV []byte\n\n// newMasterKeyV1 generates")],
 pkg="crypt", test='''
package crypt

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	c, _ := getVersion(1)
	key := bytes.Repeat([]byte{7}, c.keySize)
	master, _, err := NewMasterKey(1)
	if err != nil {
		t.Fatal(err)
	}
	_, a, err := EncryptMasterKey(1, key, master)
	if err != nil {
		t.Fatal(err)
	}
	_, b, err := EncryptMasterKey(1, key, master)
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(a, b) {
		t.Fatal("iv reused")
	}
}
''')

seed("b05-stale-salt-no-pass", "C04",
 "opening a multi-user file with a cached key but without its salt and without passphrase",
 "when no passphrase is given the cached key is used although the cached salt does not match the stored one, and the wrong salt is returned with it",
 [("crypt/crypto_v1.go", "	if len(key) == 0 || !bytes.Equal(salt, p.Salts[p.User]) {", "	if len(key) == 0 || (!bytes.Equal(salt, p.Salts[p.User]) && len(passphrase) != 0) {")],
 pkg="crypt", test=MULTI + '''
func TestDemo(t *testing.T) {
	enc, keys, salts := twoUsers(t)
	_, p, _, err := Decrypt([]byte("bob"), nil, keys[1], salts[0], enc)
	if err == nil {
		t.Fatalf("a key with the wrong salt was accepted, salt returned is right: %v", bytes.Equal(p.Salts[p.User], salts[1]))
	}
}
''')

seed("b06-wrong-pass-params", "C04",
 "opening a multi-user file with a cached pair whose salt is out of date, then saving with the returned parameters",
 "after deriving a new key the parameters returned keep the caller's outdated salt for the selected user",
 [("crypt/crypto_v1.go", """		salt = p.Salts[p.User]
		key, err = c.keygen(c, passphrase, salt)""", """		if len(salt) == 0 {
			salt = p.Salts[p.User]
		}
		key, err = c.keygen(c, passphrase, p.Salts[p.User])""")],
 pkg="crypt", test=MULTI + '''
func TestDemo(t *testing.T) {
	enc, keys, salts := twoUsers(t)
	_, p, _, err := Decrypt([]byte("bob"), []byte("bobpass"), keys[0], salts[0], enc)
	if err != nil {
		return // refusing is not what this is about
	}
	if !bytes.Equal(p.Salts[p.User], salts[1]) {
		t.Fatal("the returned salt does not belong to the returned key")
	}
}
''')
