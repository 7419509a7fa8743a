package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C04", Title: "a cached key opens only the salt and user it belongs to", Run: runC04,
		Explanation: "Decrypt is executed abstractly path by path. On every exit that may hand out a plaintext of a current-version file, the key and salt reported for the selected user are compared, as terms, with how the key came to be: derived by scrypt from the passphrase and that salt of the file, or supplied by the caller under a successful comparison of the caller's salt with the file's. Every assignment to the selected-user index is matched with the comparison of user names that justifies it."})
}

func runC04(r *Run) {
	r.Rule("key-bound-to-salt: on every successful exit the key in Params is scrypt(passphrase, salt in Params), or the caller's key on a path where the caller's salt was found equal to the file's salt of the selected user")
	r.Rule("key-used: the first cipher suite is keyed with the key reported in Params")
	r.Rule("user-selected-by-name: the selected user index is only ever set to an entry whose stored hash equals SHA-256 of the user name on that path, to a negative marker, or to a freshly appended dummy entry; it never stays at its zero default in a multi-user file")
	fn := r.Anchor("crypt.Decrypt")
	if fn == nil {
		return
	}
	a := newAuthModel(r)
	c := a.client()
	m := a.sim(r)
	m.C = c
	var P []*Term
	pT := fn.Signature.Results().At(1).Type()
	c.OnCall = func(prev func(*CallEv)) func(*CallEv) {
		return func(ev *CallEv) {
			prev(ev)
			if strings.HasSuffix(ev.Name, ".NewCipher") && len(ev.Args) > 0 {
				if _, ok := ev.S.cl["keyed"]; !ok {
					ev.S.cl["keyed"] = ev.Args[0]
				}
			}
		}
	}(c.OnCall)
	c.OnStore = func(prev func(*State, *Term, *Term, ssa.Instruction)) func(*State, *Term, *Term, ssa.Instruction) {
		return func(s *State, addr, val *Term, in ssa.Instruction) {
			prev(s, addr, val, in)
			if addr.op == OAllocAddr && isUserHash(s, val, P[0]) {
				s.cl["uh:"+tid(addr)] = s.sim.T.True
			}
			k, ok := addr.obj.(fieldKey)
			if addr.op != OFieldAddr || !ok || k != fieldKeyOf(pT, fieldIndex(pT, "User")) || val.op == OZero {
				return
			}
			if _, isAlloc := in.(*ssa.Alloc); isAlloc {
				return
			}
			where := r.P.instrPos(in)
			r.Oblige("user-selected-by-name", "store at "+where)
			if why := a.selJustified(s, val, P[0], P[4], addr.args[0], pT); why != "" {
				r.Violate("user-selected-by-name", "store|"+fnName(in.Parent()), where, "the selected user is set to "+short(val)+", "+why, s.Trail(10))
				return
			}
			s.cl["selected"] = s.sim.T.True
		}
	}(c.OnStore)
	c.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		pt, err := res[len(res)-2], res[len(res)-1]
		if s.NonNil(err) || pt == T.Nil {
			return
		}
		where := r.P.instrPos(in)
		keys, salts := s.fieldOf(res[1], pT, "Keys"), s.fieldOf(res[1], pT, "Salts")
		user, nusers := s.fieldOf(res[1], pT, "User"), s.fieldOf(res[1], pT, "NUsers")
		if keys == nil || salts == nil || user == nil || nusers == nil {
			r.Violate("key-bound-to-salt", "shape", where, "Params no longer has Keys/Salts/User/NUsers", nil)
			return
		}
		zero := func(x *Term) *Term {
			if x.op == OZero {
				return T.Zero
			}
			return x
		}
		user, nusers = zero(user), zero(nusers)
		at := func(list *Term) *Term {
			elem := elemType(list.typ)
			if list.op == OZero || list.op == ONil {
				return T.Nil
			}
			return s.Load(T.IndexAddr(list, user, ptrTo(elem)), elem)
		}
		key, salt := at(keys), at(salts)
		single := s.Known(T.Eq(nusers, T.Zero), true)
		if v, ok := res[0].intVal(); ok && v == 0 && single {
			r.Oblige("key-bound-to-salt", "legacy file "+where)
		} else {
			r.Oblige("key-bound-to-salt", where+" "+lastCtx(s))
		}
		// fileSalt: t is the salt the file stores for the selected user
		fileSalt := func(t *Term) bool {
			t = a.plain(s, t)
			if single {
				b := bufOf(t)
				return b == P[4] || a.suffixOf(s, b, P[4], map[int]bool{})
			}
			if t.op == OLoad && t.args[0].op == OIndexAddr {
				l := bufOf(salts)
				return (t.args[0].args[0] == l) && s.eqInt(t.args[0].args[1], user)
			}
			return false
		}
		bad := func(key, format string, args ...any) {
			r.Violate("key-bound-to-salt", key, where, fmt.Sprintf(format, args...), s.Trail(14))
		}
		if _, ok := s.cl["selected"]; !ok && !single {
			r.Violate("user-selected-by-name", "default", where, "a multi-user file can be opened with a selected user that was never matched by name (the index keeps its zero default)", s.Trail(14))
		}
		pk := a.plain(s, key)
		call := callOf(pk)
		switch {
		case strings.HasSuffix(call.name, "scrypt.Key") && len(call.args) == 6:
			if call.args[0] != P[1] {
				bad("passphrase", "the key is derived from something else than the passphrase: %s", short(call.args[0]))
			}
			if !fileSalt(call.args[1]) {
				bad("derive-salt", "the key is derived with a salt that is not the selected user's salt in the file: %s", short(call.args[1]))
			}
			if a.plain(s, salt) != a.plain(s, call.args[1]) {
				bad("report-salt", "the salt reported (%s) is not the one the key was derived with (%s)", short(salt), short(call.args[1]))
			}
		case pk == P[2]:
			eq, same := false, a.plain(s, salt) == P[3]
			for f, val := range s.facts {
				if !val || f.op != OPure || !isEqualFn(f.name) || len(f.args) != 2 {
					continue
				}
				for i := 0; i < 2; i++ {
					if f.args[i] == P[3] && fileSalt(f.args[1-i]) {
						eq = true
						same = same || a.plain(s, f.args[1-i]) == a.plain(s, salt)
					}
				}
			}
			if !eq {
				bad("cached-key", "the caller's key is used although its salt was not found equal to the selected user's salt in the file")
			}
			if eq && !same {
				bad("report-salt", "the salt reported for the cached key is %s", short(salt))
			}
		default:
			bad("key-origin", "the key reported is neither derived from the passphrase nor the caller's: %s", short(key))
		}
		if k, ok := s.cl["keyed"]; ok {
			r.Oblige("key-used", where)
			if bufOf(k) != key && bufOf(k) != pk && bufOf(k) != bufOf(key) {
				r.Violate("key-used", "keyed", where, "the file is opened with another key ("+short(k)+") than the one reported", s.Trail(14))
			}
		}
	}
	m.Run(fn, func(s *State, params []*Term) { P = params })
	r.absorb(m, "crypt.Decrypt")
	r.Need("key-bound-to-salt", 2)
	r.Need("user-selected-by-name", 2)
	r.Need("key-used", 1)
}

// selJustified says why v may not be used as the selected user ("" if it may).
func (a *authModel) selJustified(s *State, v, user, enc, params *Term, pT types.Type) string {
	T := s.sim.T
	if n, ok := v.intVal(); ok && n < 0 {
		return ""
	}
	for f, val := range s.facts {
		if !val || f.op != OPure || !isEqualFn(f.name) || len(f.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if !isUserHash(s, f.args[i], user) {
				continue
			}
			if x := f.args[1-i]; x.op == OLoad && x.args[0].op == OIndexAddr {
				if s.eqInt(x.args[0].args[1], v) {
					return ""
				}
			} else if b := bufOf(x); b == enc || a.suffixOf(s, b, enc, map[int]bool{}) {
				return "" // compared in place, while reading the entry
			}
		}
	}
	// a dummy entry appended for an unknown user
	if params != nil {
		dummy := 0
		for _, f := range []string{"Salts", "IVs", "MKeys"} {
			l := s.loadField(params, ptrTo(pT), f)
			if l != nil && l.op == OAppend && len(l.args) == 2 && s.eqInt(T.Len(l.args[0]), v) {
				b := bufOf(l.args[1])
				_, copied := s.cl["buf:"+tid(b)]
				if (b.op == OMake || b.op == OAllocAddr) && !copied {
					dummy++
				}
			}
		}
		if dummy == 3 {
			return ""
		}
	}
	return "but nothing on this path shows that this entry's name hash equals the hash of the given user"
}

// isUserHash: x is SHA-256 of the user name.
func isUserHash(s *State, x, user *Term) bool {
	b := bufOf(x)
	if b.op == OAllocAddr {
		if _, ok := s.cl["uh:"+tid(b)]; ok {
			return true
		}
		if v, ok := s.mem[b]; ok {
			b = v
		}
	}
	if (b.op == OCall || b.op == OPure) && strings.HasPrefix(b.name, "crypto/sha256.Sum") {
		return len(b.args) > 0 && b.args[0].contains(user)
	}
	return b.op == OPure && b.name == "digest" && len(b.args) == 1 && b.args[0] == user
}

// plain unwraps copies of a byte string.
func (a *authModel) plain(s *State, t *Term) *Term {
	for d := 0; d < 8; d++ {
		switch t.op {
		case OSlice:
			if mustInt(t.args[1]) == 0 && t.args[2].op == ONone {
				t = t.args[0]
				continue
			}
		case OMake:
			if c, ok := s.cl["buf:"+tid(t)]; ok && len(c.args) == 2 && mustInt(c.args[0]) == 0 && s.eqInt(s.sim.T.Len(t), s.sim.T.Len(c.args[1])) {
				t = c.args[1]
				continue
			}
		case OAppendS:
			if t.args[0].op == ONil || s.sim.T.Len(t.args[0]) == s.sim.T.Zero {
				t = t.args[1]
				continue
			}
		case OCall, OExtract:
			if c := callOf(t); c.name == "bytes.Clone" || c.name == "slices.Clone" {
				t = c.args[0]
				continue
			}
		}
		return t
	}
	return t
}
