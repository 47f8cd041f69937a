package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C27",
		Title: "A wallet opens only with its passphrase and signs only for its own addresses",
		Statement: "A stored wallet holds its secret encrypted under a key stretched from the passphrase with a fresh random salt, with authenticated encryption under a fresh random nonce, and everything needed to open it again; opening succeeds only if version, cipher and key stretching are the known ones, the decryption authenticates, and the secret yields the address the file names, and then gives back exactly the stored secret. " +
			"Account keys are derived from the seed along the documented hardened path, so the same mnemonic always gives the same addresses, and a key is handed out or used for an address only if the address is that of the key. " +
			"A locked wallet, or one that was removed or stopped, gives out no key and signs nothing until it is unlocked with the passphrase again.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all secrets, passphrases, key files, paths and sequences of wallet operations",
		Why:       "A wallet that derives another key, weakens the encryption or keeps working when locked behaves the same in every round-trip test.",
		Files:     []string{"wallet/entropystore/crypto_store.go", "wallet/entropystore/manager.go", "wallet/entropystore/utils.go", "wallet/entropystore/models.go", "wallet/hd-bip/derivation/main.go", "wallet/manager.go", "wallet/account.go", "wallet/wallet.go", "crypto/crypto.go"},
		Mech:      [][2]string{{"key file", "wallet/entropystore/crypto_store.go EncryptEntropy"}, {"opening", "wallet/entropystore/crypto_store.go DecryptEntropy"}, {"locking", "wallet/entropystore/manager.go Manager.Lock"}, {"derivation", "wallet/hd-bip/derivation/main.go DeriveForPath"}, {"accounts", "wallet/manager.go Manager.Account"}},
		Technique: "functional specification of every wallet operation decided by path-sensitive dataflow: acceptance conditions, arguments of the cryptographic primitives, state changes",
		Note:      "scrypt, AES-GCM, HMAC, bip39, encoding/json and the random source are trusted; ed25519 is C28.",
		Run:       runC27,
	})
}

const walletStoreSpec = `
fn parseJson
 err 5
 def K out(Unmarshal(A0, _), _)
 ok Unmarshal(A0, _) == nil
 ok $K.Version == 1
 ok IsValidHexAddress($K.PrimaryAddress)
 ok HexToAddress($K.PrimaryAddress).R1 == nil
 ok $K.CipherName == "aes-256-gcm"
 ok $K.KDF == "scrypt"
 ok DecodeString($K.CipherText).R1 == nil
 ok DecodeString($K.Nonce).R1 == nil
 ok DecodeString($K.ScryptParams.Salt).R1 == nil
 ret 0 NEW
 ret 1 ptr HexToAddress($K.PrimaryAddress).R0
 ret 2 DecodeString($K.CipherText).R0
 ret 3 DecodeString($K.Nonce).R0
 ret 4 DecodeString($K.ScryptParams.Salt).R0

fn DecryptEntropy
 err 1
 def J parseJson(A0)
 def S $J.R0.Crypto.ScryptParams
 def K Key(A1, $J.R4, $S.N, $S.R, $S.P, $S.KeyLen)
 def D AesGCMDecrypt(X, $J.R2, $J.R3)
 def M NewMnemonic($D.R0)
 def G GetPrimaryAddress(NewSeed($M.R0, ""))
 ok $J.R5 == nil
 ok $K.R1 == nil
 ok $D.R1 == nil
 ok $M.R1 == nil
 ok $G.R1 == nil
 ok *$G.R0 == *$J.R1
 ret 0 AesGCMDecrypt($K.R0[:32], $J.R2, $J.R3).R0

fn EncryptEntropy
 err 1
 def SALT GetEntropyCSPRNG(32)
 def K Key(A2, $SALT, 262144, 8, 1, 32)
 def E AesGCMEncrypt($K.R0[:32], A0)
 ok $K.R1 == nil
 ok $E.R2 == nil
 mayfail Marshal(_).R1 != nil
 ret 0 Marshal(X).R0 where X obj PrimaryAddress = String(A1); Version = 1; Crypto.CipherName = "aes-256-gcm"; Crypto.CipherText = EncodeToString($E.R0); Crypto.Nonce = EncodeToString($E.R1); Crypto.KDF = "scrypt"; Crypto.ScryptParams.N = 262144; Crypto.ScryptParams.R = 8; Crypto.ScryptParams.P = 1; Crypto.ScryptParams.KeyLen = 32; Crypto.ScryptParams.Salt = EncodeToString($SALT)

fn CryptoStore.ExtractEntropy
 err 1
 def R ReadFile(A0.EntropyStoreFilename)
 ok $R.R1 == nil
 ok DecryptEntropy($R.R0, A1).R1 == nil
 ret 0 DecryptEntropy($R.R0, A1).R0

fn CryptoStore.ExtractSeed
 err 2
 def E ExtractEntropy(A0, A1)
 ok $E.R1 == nil
 ok NewMnemonic($E.R0).R1 == nil
 ret 0 NewSeed(NewMnemonic($E.R0).R0, "")
 ret 1 $E.R0

fn CryptoStore.StoreEntropy
 err 0
 def E EncryptEntropy(A1, A2, A3)
 ok $E.R1 == nil
 ok writeKeyFile(A0.EntropyStoreFilename, $E.R0) == nil
 watch writeKeyFile
 call writeKeyFile(A0.EntropyStoreFilename, $E.R0)

fn writeKeyFile
 err 0
 watch Write Rename Remove
 def T TempFile(Dir(A0), _)
 ok MkdirAll(Dir(A0), _) == nil
 ok $T.R1 == nil
 ok Write($T.R0, A1).R1 == nil
 ok Rename(Name($T.R0), A0) == nil
 call Write($T.R0, A1)
 call last Rename(Name($T.R0), A0)
`

const walletMgrSpec = `
fn Manager.IsUnlocked
 ret 0 iff A0.unlockedSeed != nil

fn Manager.IsAddrUnlocked
 ret 0 iff A0.unlockedSeed != nil && FindAddrFromSeed(A0.unlockedSeed, A1, A0.maxSearchIndex).R2 == nil

fn Manager.Unlock
 err 0
 def S ExtractSeed(A0.ks, A1)
 ok $S.R2 == nil
 post A0.unlockedSeed = $S.R0
 post A0.unlockedEntropy = $S.R1
 watch dyn
 call if A0.unlockChangedLis != nil ? dyn(A0.unlockChangedLis, X) where X obj EntropyStoreFile = A0.ks.EntropyStoreFilename; PrimaryAddr = A0.primaryAddr; event = "Unlocked"

fn Manager.Lock
 post A0.unlockedSeed = nil
 post A0.unlockedEntropy = nil
 watch dyn
 call if A0.unlockChangedLis != nil ? dyn(A0.unlockChangedLis, X) where X obj EntropyStoreFile = A0.ks.EntropyStoreFilename; PrimaryAddr = A0.primaryAddr; event = "Locked"

fn Manager.FindAddrWithPassphrase
 err 2
 def S ExtractSeed(A0.ks, A1)
 def F FindAddrFromSeed($S.R0, A2, A0.maxSearchIndex)
 ok $S.R2 == nil
 ok $F.R2 == nil
 ret 0 $F.R0
 ret 1 $F.R1

fn Manager.FindAddr
 err 2
 def F FindAddrFromSeed(A0.unlockedSeed, A1, A0.maxSearchIndex)
 ok A0.unlockedSeed != nil
 ok $F.R2 == nil
 ret 0 $F.R0
 ret 1 $F.R1

fn Manager.SignData
 err 2
 def F FindAddrFromSeed(A0.unlockedSeed, A1, A0.maxSearchIndex)
 ok A0.unlockedSeed != nil
 ok $F.R2 == nil
 ok SignData(*$F.R0, A2).R2 == nil
 ret 0 SignData(*$F.R0, A2).R0
 ret 1 SignData(*$F.R0, A2).R1

fn Manager.GetPrivateKey
 err 1
 def F FindAddrFromSeed(A0.unlockedSeed, A1, A0.maxSearchIndex)
 ok A0.unlockedSeed != nil
 ok $F.R2 == nil
 ok PrivateKey(*$F.R0).R1 == nil
 ret 0 PrivateKey(*$F.R0).R0

fn Manager.SignDataWithPassphrase
 err 2
 def S ExtractSeed(A0.ks, A2)
 def F FindAddrFromSeed($S.R0, A1, A0.maxSearchIndex)
 ok $S.R2 == nil
 ok $F.R2 == nil
 ok SignData(*$F.R0, A3).R2 == nil
 ret 0 SignData(*$F.R0, A3).R0
 ret 1 SignData(*$F.R0, A3).R1

fn Manager.DeriveForFullPath
 err 2
 def D DeriveForPath(A1, A0.unlockedSeed)
 ok A0.unlockedSeed != nil
 ok $D.R1 == nil
 ret 0 A1
 ret 1 $D.R0

fn Manager.DeriveForFullPathWithPassphrase
 err 2
 def S ExtractSeed(A0.ks, A2)
 def D DeriveForPath(A1, $S.R0)
 ok $S.R2 == nil
 ok $D.R1 == nil
 ret 0 A1
 ret 1 $D.R0

fn Manager.ExtractMnemonic
 err 1
 def E ExtractEntropy(A0.ks, A1)
 ok $E.R1 == nil
 ok NewMnemonic($E.R0).R1 == nil
 ret 0 NewMnemonic($E.R0).R0

fn StoreNewEntropy
 err 1
 def E EntropyFromMnemonic(A1)
 def G GetPrimaryAddress(NewSeed(A1, ""))
 def FILE Join(list(A0, Hex(*$G.R0)))
 def S StoreEntropy(X, $E.R0, *$G.R0, A2)
 ok $E.R1 == nil
 ok $G.R1 == nil
 ok $S == nil
 watch StoreEntropy
 call $S where X obj EntropyStoreFilename = $FILE
 ret 0 obj primaryAddr = *$G.R0; maxSearchIndex = A3; ks = obj EntropyStoreFilename = $FILE
`

const walletIdxSpec = `
fn Manager.DeriveForIndexPath
 err 2
 def D DeriveForFullPath(A0, Sprintf("m/44'/666666'/%d'", list(A1)))
 ok $D.R2 == nil
 ret 0 $D.R0
 ret 1 $D.R1

fn Manager.DeriveForIndexPathWithPassphrase
 err 2
 def D DeriveForFullPathWithPassphrase(A0, Sprintf("m/44'/666666'/%d'", list(A1)), A2)
 ok $D.R2 == nil
 ret 0 $D.R0
 ret 1 $D.R1

fn Manager.GetPrimaryAddr
 ret 0 A0.primaryAddr

fn Manager.GetEntropyStoreFile
 ret 0 A0.ks.EntropyStoreFilename

fn MnemonicToPrimaryAddr
 err 1
 def G GetPrimaryAddress(NewSeed(A0, ""))
 ok $G.R1 == nil
 ret 0 $G.R0

fn NewMnemonic
 err 1
 def E NewEntropy(256)
 ok $E.R1 == nil
 ok NewMnemonic($E.R0).R1 == nil
 ret 0 NewMnemonic($E.R0).R0

fn NewManager
 ret 0 obj primaryAddr = A1; maxSearchIndex = A2; ks.EntropyStoreFilename = A0; unlockedSeed = nil; unlockedEntropy = nil
`

const walletKeySpec = `
fn DeriveWithIndex
 err 1
 ok DeriveForPath(_, A1).R1 == nil
 watch DeriveForPath
 call DeriveForPath(Sprintf("m/44'/666666'/%d'", list(A0)), A1)
 ret 0 DeriveForPath(_, A1).R0

fn GetPrimaryAddress
 err 1
 def D DeriveWithIndex(0, A0)
 ok $D.R1 == nil
 ok Address(*$D.R0).R1 == nil
 ret 0 Address(*$D.R0).R0

fn NewMasterKey
 err 1
 def H New(New, "ed25519 blake2b seed")
 ok Write($H, A0).R1 == nil
 watch Write Sum Reset
 ordered
 call Write($H, A0)
 call Sum($H, nil)
 ret 0 obj Key = Sum(_, nil)[:32]; ChainCode = Sum(_, nil)[32:]

fn Key.Derive
 err 1
 def H New(New, A0.ChainCode)
 ok A1 >= 2147483648
 ok Write($H, _).R1 == nil
 watch Write Sum Reset
 ordered
 call Write($H, X) where X bytes 0; A0.Key; be32(A1)
 call Sum($H, nil)
 ret 0 obj Key = Sum(_, nil)[:32]; ChainCode = Sum(_, nil)[32:]

fn Key.PublicKey
 err 1
 def G GenerateKey(NewReader(A0.Key))
 ok $G.R2 == nil
 ret 0 $G.R0

fn Key.PrivateKey
 err 1
 def G GenerateKey(NewReader(A0.Key))
 ok $G.R2 == nil
 ret 0 $G.R1

fn Key.Address
 err 1
 def G PublicKey(A0)
 ok $G.R1 == nil
 ret 0 ptr PubkeyToAddress($G.R0)

fn Key.SignData
 err 2
 def G PrivateKey(A0)
 ok $G.R1 == nil
 ret 0 Sign($G.R0, A1)
 ret 1 PubByte($G.R0)
`

const walletCryptoSpec = `
fn AesGCMEncrypt
 err 2
 def C NewCipher(A0)
 def G NewGCM($C.R0)
 def N GetEntropyCSPRNG(12)
 ok $C.R1 == nil
 ok $G.R1 == nil
 ret 0 Seal($G.R0, nil, $N, A1, "vite")
 ret 1 $N

fn AesGCMDecrypt
 err 1
 def C NewCipher(A0)
 def G NewGCM($C.R0)
 def O Open($G.R0, nil, A2, A1, "vite")
 ok $C.R1 == nil
 ok $G.R1 == nil
 ok $O.R1 == nil
 ret 0 $O.R0
`

const walletAccSpec = `
fn newAccount
 err 1
 skip panic
 def P PrivateKey(*A1)
 ok $P.R1 == nil
 ok PrikeyToAddress($P.R0) == A0
 ret 0 obj address = A0; priv = $P.R0

fn NewAccountFromHexKey
 err 1
 def P HexToPrivateKey(A0)
 ok $P.R1 == nil
 ret 0 obj address = PrikeyToAddress($P.R0); priv = $P.R0

fn Account.Sign
 ret 0 Sign(A0.priv, A1)
 ret 1 PubByte(A0.priv)
 ret 2 nil

fn newMnemonic
 err 3
 def M NewMnemonic(A0)
 def D DeriveWithIndex(0, NewSeed($M.R0, ""))
 ok $M.R1 == nil
 ok $D.R1 == nil
 ok Address(*$D.R0).R1 == nil
 ok PrivateKey(*$D.R0).R1 == nil
 ret 0 *Address(*$D.R0).R0
 ret 1 PrivateKey(*$D.R0).R0
 ret 2 $M.R0

fn Manager.Unlock
 err 0
 def G GetEntropyStoreManager(A0, A1)
 ok $G.R1 == nil
 ok Unlock($G.R0, A2) == nil

fn Manager.IsUnlocked
 def G GetEntropyStoreManager(A0, A1)
 ret 0 iff $G.R1 == nil && $G.R0.unlockedSeed != nil

fn Manager.Lock
 err 0
 def G GetEntropyStoreManager(A0, A1)
 ok $G.R1 == nil
 watch Lock
 call Lock($G.R0)

fn Manager.GetEntropyStoreManager
 err 1
 alt PATH IsAbs(A1) ? A1 : Join(list(A0.config.DataDir, A1))
 ok mapok(A0.entropyStoreManager, $PATH)
 ret 0 mapget(A0.entropyStoreManager, $PATH)

fn Manager.RemoveEntropyStore
 alt PATH IsAbs(A1) ? A1 : Join(list(A0.config.DataDir, A1))
 watch Lock mapdel
 call if mapok(A0.entropyStoreManager, $PATH) ? Lock(mapget(A0.entropyStoreManager, $PATH))
 call if mapok(A0.entropyStoreManager, $PATH) ? mapdel(A0.entropyStoreManager, $PATH)

fn Manager.Stop
 watch Lock
 call range A0.entropyStoreManager : Lock(rval(_))
 post A0.entropyStoreManager = nil

fn Manager.RecoverEntropyStoreFromMnemonic
 err 1
 def S StoreNewEntropy(A0.config.DataDir, A1, A2, _)
 ok $S.R1 == nil
 watch mapset
 call mapset(A0.entropyStoreManager, _, $S.R0)
 ret 0 $S.R0

fn Manager.NewMnemonicAndEntropyStore
 err 2
 def E NewEntropy(256)
 def M NewMnemonic($E.R0)
 def R RecoverEntropyStoreFromMnemonic(A0, $M.R0, A1)
 ok $E.R1 == nil
 ok $M.R1 == nil
 ok $R.R1 == nil
 ret 0 $M.R0
 ret 1 $R.R0

fn Manager.AccountAtIndex
 err 1
 def G GetEntropyStoreManager(_, A1)
 def D DeriveForIndexPath($G.R0, A3)
 ok $G.R1 == nil
 ok $D.R2 == nil
 ok Address(*$D.R1).R1 == nil
 ok *Address(*$D.R1).R0 == A2
 ok newAccount(A2, $D.R1).R1 == nil
 ret 0 newAccount(A2, $D.R1).R0

fn Manager.MatchAddress
 err 0
 def G GetEntropyStoreManager(A0, A1)
 def D DeriveForIndexPath($G.R0, A3)
 ok $G.R1 == nil
 ok $D.R2 == nil
 ok Address(*$D.R1).R1 == nil
 ok *Address(*$D.R1).R0 == A2
`

func runC27(c *Ctx) {
	es, dv := "wallet/entropystore", "wallet/hd-bip/derivation"
	run := func(pkg, text, rule string, e *Engine) {
		for _, s := range parseSpecs(text) {
			c.specFn(e, pkg, s, rule)
		}
	}
	run(es, walletStoreSpec, "wallet-file", c.Opts([]string{es}, "parseJson", "DecryptEntropy", "EncryptEntropy", "ExtractEntropy", "ExtractSeed", "writeKeyFile"))
	run(es, walletMgrSpec, "wallet-lock", c.Opts([]string{es}, "ExtractSeed", "ExtractEntropy", "StoreEntropy", "FindAddrFromSeed", "DeriveForPath"))
	run(es, walletIdxSpec, "wallet-key", c.Opts([]string{es}, "DeriveForFullPath", "DeriveForFullPathWithPassphrase"))
	run(dv, walletKeySpec, "wallet-key", c.Opts([]string{dv}, "DeriveForPath", "DeriveWithIndex", "PrivateKey", "PublicKey", "Address", "PubByte"))
	run("crypto", walletCryptoSpec, "wallet-cipher", c.Opts([]string{"crypto"}, "GetEntropyCSPRNG"))
	run("wallet", walletAccSpec, "wallet-account", c.Opts([]string{"wallet"}, "GetEntropyStoreManager", "newAccount", "RecoverEntropyStoreFromMnemonic", "PubByte", "HexToPrivateKey"))
	// n bytes of the system's random source, all of them or no return
	if f := c.Func("crypto", "GetEntropyCSPRNG"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{"crypto"}), f)) {
			ok := false
			v := p.o.st.mem[mk("opq", "", nil, stripConv(p.o.res[0]))]
			for _, call := range []string{"ReadFull(Reader, zerobytes(A0))", "Read(Reader, zerobytes(A0))", "Read(zerobytes(A0))"} {
				ok = ok || p.Holds(call+".R1 == nil") && v != nil && isT(v, "out("+call+", _)")
			}
			c.Ob(ok, "wallet-random", "GetEntropyCSPRNG", p.where(), "not n bytes of the system's random source: %s", p.Describe())
		}
	}
	c.walletLoops()
	c.walletFind()
	c.walletList()
	for _, n := range []string{"entropyJSON", "cryptoJSON", "scryptParams"} {
		c.jsonStruct(es, n)
	}
}

// jsonStruct: every field of a stored struct is written and read back.
func (c *Ctx) jsonStruct(pkg, name string) {
	var obj types.Object
	if pk := c.P.ByRel[pkg]; pk != nil {
		obj = pk.Types.Scope().Lookup(name)
	}
	c.Ob(obj != nil, "wallet-file", name, pkg, "the stored type is gone")
	if obj == nil {
		return
	}
	st, ok := obj.Type().Underlying().(*types.Struct)
	c.Ob(ok, "wallet-file", name, pkg, "the stored type is no struct")
	if !ok {
		return
	}
	seen := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
		if tag == "" {
			tag = f.Name()
		}
		k := strings.ToLower(tag)
		c.Ob(f.Exported() && tag != "-" && !seen[k], "wallet-file", name+"."+f.Name(), c.P.pos(f.Pos()), "the field does not survive storing")
		seen[k] = true
	}
}

// walks finds loops the path left after visiting seq[from:] one by one; pos is
// the position visited.
func (p *Path) walks(seq string, from int64) (ev *Event, pos *Term) {
	pe := pat(seq)
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			start, ok := i64(ph.Init)
			if !ok || !stepOne(ph) {
				continue
			}
			if start == -1 {
				start = 0 // numbered after the increment
			}
			off := from - start
			pos := mkBin(token.ADD, ph.Iter, kInt(off), ph.Iter.Typ)
			hit := false
			for _, f := range p.F {
				for _, side := range []*Term{f.A, f.B} {
					subTerms(side, func(l *Term) {
						if l.Op != "len" {
							return
						}
						if _, ok := matchT(pe, l.Args[0], p.B.copy()); ok && p.F.possible(l, pos)&GT == 0 {
							hit = true
						}
					})
				}
			}
			if hit {
				return ev, pos
			}
		}
	}
	return nil, nil
}

// walletLoops: derivation along a path, and the search for an address.
func (c *Ctx) walletLoops() {
	dv, es := "wallet/hd-bip/derivation", "wallet/entropystore"
	const seg = `Split(A0, "/")`
	const num = `ParseUint(TrimRight(` + seg + `[P], "'"), 10, 32)`
	if f := c.Func(dv, "DeriveForPath"); f != nil {
		outs := c.Paths(c.Opts([]string{dv}, "isValidPath", "NewMasterKey", "Derive"), f)
		ps := c.success(outs, 1)
		c.Ob(len(ps) > 0, "wallet-path", "DeriveForPath", c.where(f), "never succeeds")
		for _, p := range ps {
			n := p.norm().Path
			c.Ob(n.Holds("isValidPath(A0)"), "wallet-path", "DeriveForPath", p.where(), "derives along a path that was not checked: %s", p.Describe())
			ev, pos := p.walks(seg, 1)
			ok := ev != nil
			if ok {
				ph := phiOf(ev, p.o.res[0])
				ok = ph != nil && isT(ph.Init, `NewMasterKey(A1).R0`) && n.Holds("NewMasterKey(A1).R1 == nil")
				for j, st := range ev.Loop.Iters {
					if !ok {
						break
					}
					q := p.iterPath(ev, st, nil)
					q.B = Bind{"P": pos, "K": ph.Iter}
					b, m := matchT(pat(`Derive(X, `+num+`.R0 + 2147483648).R0`), ph.Next[j], q.B.copy())
					ok = m && stripConv(b["X"]) == stripConv(ph.Iter)
					q.B = b
					m2 := q.norm().Path
					ok = ok && m2.Holds(num+`.R1 == nil`) && m2.Holds(`Derive(X, `+num+`.R0 + 2147483648).R1 == nil`)
				}
			}
			c.Ob(ok, "wallet-path", "DeriveForPath", p.where(), "the key is not the master key derived by every number of the path in turn, hardened: %s", p.Describe())
		}
		for _, p := range c.failure(outs, 1) {
			n := p.norm().Path
			ok := n.condF("isValidPath(A0)") || n.Holds("NewMasterKey(A1).R1 != nil") || n.Holds("ParseUint(_, 10, 32).R1 != nil") || n.Holds("Derive(_, _).R1 != nil")
			c.Ob(ok, "wallet-path", "DeriveForPath", p.where(), "a well-formed path is refused: %s", p.Describe())
		}
	}
	if f := c.Func(dv, "isValidPath"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{dv}), f)) {
			n := p.norm().Path
			d := n.F.decide(stripConv(p.o.res[0]))
			switch {
			case d == 1:
				ev, pos := p.walks(seg, 1)
				ok := ev != nil && n.Holds("MatchString(pathRegex, A0)")
				if ok {
					for _, st := range ev.Loop.Iters {
						q := p.iterPath(ev, st, nil)
						q.B = Bind{"P": pos}
						ok = ok && q.norm().Path.Holds(num+".R1 == nil")
					}
				}
				c.Ob(ok, "wallet-path", "isValidPath", p.where(), "accepts a path without checking its form and every number: %s", p.Describe())
			case d == 0:
				c.Ob(n.condF("MatchString(pathRegex, A0)") || n.Holds("ParseUint(_, 10, 32).R1 != nil"), "wallet-path", "isValidPath", p.where(), "refuses a well-formed path: %s", p.Describe())
			default:
				c.Ob(false, "wallet-path", "isValidPath", p.where(), "result %s", p.o.res[0])
			}
		}
	}
	if v, pos := c.globalInit(dv, "pathRegex"); v != nil {
		s := ""
		if call, ok := v.(*ssa.Call); ok && len(call.Call.Args) == 1 {
			if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				s = constant.StringVal(k.Value)
			}
		}
		re, err := regexp.Compile(s)
		ok := s != "" && err == nil
		for _, w := range []string{"m/0'", "m/44'/666666'/0'", "m/1'/2'/3'/4'", "m/123456789'"} {
			ok = ok && re.MatchString(w)
		}
		for _, w := range []string{"", "m/", "m/0", "m/0'/1", "m/0'/1/2'", "m//0'", "m/0''", "m/a'", "/0'", "x/0'", "m/0'/", " m/0'", "m/0' ", "mm/0'", "m/-1'", "m/0'x", "m/1.0'", "m/+1'"} {
			ok = ok && !re.MatchString(w)
		}
		c.Ob(ok, "wallet-path", "pathRegex", pos, "the form of a path is not m followed by hardened numbers: %q", s)
	}
	if f := c.Func(es, "FindAddrFromSeed"); f != nil {
		outs := c.Paths(c.Opts([]string{es}), f)
		ps := c.success(outs, 2)
		c.Ob(len(ps) > 0, "wallet-search", "FindAddrFromSeed", c.where(f), "never succeeds")
		for _, p := range ps {
			n := p.norm().Path
			b, ok := matchT(pat("DeriveWithIndex(I, A0).R0"), stripConv(p.o.res[0]), Bind{})
			if ok {
				n.B = b
				ok = stripConv(b["I"]) == stripConv(p.o.res[1]) && n.Holds("DeriveWithIndex(I, A0).R1 == nil") &&
					n.Holds("*Address(*DeriveWithIndex(I, A0).R0).R0 == A1") && n.Holds("Address(*DeriveWithIndex(I, A0).R0).R1 == nil") && n.Holds("I < A2")
			}
			c.Ob(ok, "wallet-search", "FindAddrFromSeed", p.where(), "a key is returned that is not the one at the index, for the address: %s", p.Describe())
		}
		for _, p := range c.failure(outs, 2) {
			n := p.norm().Path
			if n.Holds("DeriveWithIndex(_, A0).R1 != nil") || n.Holds("Address(_).R1 != nil") {
				continue
			}
			ok := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, ph := range ev.Loop.Phis {
					if !isZero(ph.Init) || !stepOne(ph) {
						continue
					}
					q := *n
					q.B = Bind{"I": ph.Iter}
					if !q.Holds("I >= A2") {
						continue
					}
					ok = true
					for _, st := range ev.Loop.Iters {
						r := p.iterPath(ev, st, nil)
						r.B = Bind{"I": ph.Iter}
						ok = ok && r.norm().Path.Holds("*Address(*DeriveWithIndex(I, A0).R0).R0 != A1")
					}
				}
			}
			c.Ob(ok, "wallet-search", "FindAddrFromSeed", p.where(), "gives up before every index was tried: %s", p.Describe())
		}
	}
}

// walletFind: what the searches over all wallets hand out.
func (c *Ctx) walletFind() {
	e := c.Opts([]string{"wallet"}, "newAccount", "FindAddr", "FindAddrWithPassphrase", "IsUnlocked", "GlobalFindAddrWithPassphrase", "GetEntropyStoreManager", "Unlock")
	for _, x := range []struct {
		fn   string
		err  int
		ok   []string
		form []string
	}{
		{"Manager.Account", 1, []string{"FindAddr(_, A1).R2 == nil"}, []string{"newAccount(A1, FindAddr(_, A1).R0).R0"}},
		{"Manager.GlobalFindAddr", 3, []string{"FindAddr(Z, A1).R2 == nil"}, []string{"_", "FindAddr(Z, A1).R0", "FindAddr(Z, A1).R1"}},
		{"Manager.GlobalFindAddrWithPassphrase", 3, []string{"FindAddrWithPassphrase(_, A2, A1).R2 == nil"}, []string{"_", "FindAddrWithPassphrase(_, A2, A1).R0", "FindAddrWithPassphrase(_, A2, A1).R1"}},
	} {
		f := c.Func("wallet", x.fn)
		if f == nil {
			continue
		}
		n := 0
		for _, p := range c.success(c.Paths(e, f), x.err) {
			n++
			for _, k := range x.ok {
				c.Ob(p.norm().Path.Holds(k), "wallet-account", x.fn, p.where(), "hands out a key although not known: %s: %s", k, p.Describe())
			}
			for i, k := range x.form {
				c.Ob(k == "_" || p.isV(p.o.res[i], k), "wallet-account", x.fn, p.where(), "result %d is %s", i, trunc(p.o.res[i].String(), 200))
			}
		}
		c.Ob(n > 0, "wallet-account", x.fn, c.where(f), "never finds a key")
	}
	for _, s := range parseSpecs(walletSearchSpec) {
		c.specFn(e, "wallet", s, "wallet-account")
	}
}

const walletSearchSpec = `
fn Manager.AccountSearch
 err 1
 def G GlobalFindAddrWithPassphrase(_, A2, A3)
 def M GetEntropyStoreManager(_, *A1)
 def F FindAddr($M.R0, A2)
 ok A1 != nil || $G.R3 == nil
 ok A1 != nil || newAccount(A2, $G.R1).R1 == nil
 ok A1 == nil || $M.R1 == nil
 ok A1 == nil || Unlock($M.R0, A3) == nil
 ok A1 == nil || $F.R2 == nil
 ok A1 == nil || newAccount(A2, $F.R0).R1 == nil
 case A1 == nil
 ret 0 newAccount(A2, $G.R1).R0
 case A1 != nil
 ret 0 newAccount(A2, $F.R0).R0
`

func (p *Path) condF(s string) bool { return condFails(p, s) }

// walletList: the addresses at the indices from..to-1, in order, of an
// unlocked wallet.
func (c *Ctx) walletList() {
	es := "wallet/entropystore"
	f := c.Func(es, "Manager.ListAddress")
	if f == nil {
		return
	}
	const key = "DeriveForIndexPath(A0, P)"
	for _, p := range c.success(c.Paths(c.Opts([]string{es}, "DeriveForIndexPath"), f), 1) {
		n := p.norm().Path
		ok := false
		c.Ob(n.Holds("A0.unlockedSeed != nil"), "wallet-lock", "Manager.ListAddress", p.where(), "lists addresses of a locked wallet: %s", p.Describe())
		res := stripConv(p.o.res[0])
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			var at []*Term // positions 0, 1, ... of the loop's iterations
			var num *Term
			for _, ph := range ev.Loop.Phis {
				if ph.Addr != nil || !stepOne(ph) {
					continue
				}
				q := *n
				q.B = Bind{"P": ph.Iter}
				if isZero(ph.Init) {
					at = append(at, ph.Iter)
				}
				if isT(ph.Init, "A1") && q.Holds("P >= A2") {
					num = ph.Iter
					at = append(at, mkBin(token.SUB, ph.Iter, ph.Init, ph.Iter.Typ))
				}
			}
			if num == nil {
				continue
			}
			ok = true
			for _, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				q.B = Bind{"P": num}
				m := q.norm().Path
				hit := false
				val := func(v *Term) bool {
					_, is := matchT(pat("*Address(*"+key+".R1).R0"), stripConv(v), q.B.copy())
					return is
				}
				for k, v := range st.mem {
					if k.Op == "ia" && k.root() == res.root() && val(v) {
						for _, a := range at {
							hit = hit || stripConv(k.Args[1]) == stripConv(a)
						}
					}
				}
				for _, e := range iterEvents(ev, st) {
					if e.Kind == "append" {
						for _, a := range e.Args {
							subTerms(a, func(t *Term) { hit = hit || val(t) })
						}
					}
				}
				ok = ok && hit && m.Holds(key+".R2 == nil") && m.Holds("Address(*"+key+".R1).R1 == nil")
			}
		}
		c.Ob(ok, "wallet-key", "Manager.ListAddress", p.where(), "not the addresses of the indices from up to to, in order: %s", p.Describe())
	}
}
