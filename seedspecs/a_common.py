MULTI = '''
package crypt

import (
	"bytes"
	"crypto/sha256"
	"testing"
)

func twoUsers(t *testing.T) (enc []byte, keys, salts [][]byte) {
	master, ivm, err := NewMasterKey(1)
	if err != nil {
		t.Fatal(err)
	}
	p := &Params{NUsers: 2, IVM: ivm, Master: master}
	for _, n := range []string{"alice", "bob"} {
		key, salt, err := DeriveKey(1, []byte(n+"pass"))
		if err != nil {
			t.Fatal(err)
		}
		mkey, iv, err := EncryptMasterKey(1, key, master)
		if err != nil {
			t.Fatal(err)
		}
		u := sha256.Sum256([]byte(n))
		p.Users = append(p.Users, u[:])
		p.Keys = append(p.Keys, key)
		p.Salts = append(p.Salts, salt)
		p.IVs = append(p.IVs, iv)
		p.MKeys = append(p.MKeys, mkey)
	}
	enc, err = Encrypt(1, p, []byte("payload"))
	if err != nil {
		t.Fatal(err)
	}
	return enc, p.Keys, p.Salts
}
'''
