package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Functions that write their result through a pointer (curve arithmetic, hash
// states, big.Float) as values: with this model on, the engine turns
//
//	ScReduce(&out, &in)         into   out = ScReduce(in)
//	h.Write(a); h.Sum(buf[:0])  into   buf = Digest(h, a)
//
// so that a specification can name the value computed.

var byteSliceT = types.NewSlice(types.Typ[types.Byte])

// outFns: the parameter that receives the result; the others are read.
var outFns = map[string]int{
	"ScReduce": 0, "ScMulAdd": 0, "GeScalarMultBase": 0, "GeDoubleScalarMultVartime": 0,
	"FeOne": 0, "FeZero": 0, "FeAdd": 0, "FeSub": 0, "FeMul": 0, "FeSquare": 0, "FeInvert": 0, "FeNeg": 0, "FeToBytes": 0, "FeCopy": 0,
	"FeFromBytes": 0, "ToBytes": 1, "FromBytes": 0, "ScalarMult": 0, "ScalarBaseMult": 0,
}

var floatFns = map[string]bool{"Quo": true, "Add": true, "Sub": true, "Mul": true, "SetInt": true, "SetUint64": true, "SetInt64": true, "SetFloat64": true, "Set": true, "SetPrec": true}

func hashT(h *Term) *Term { return mk("hst", "", nil, h) }

func pv(name string, t types.Type, args ...*Term) *Term { return mk("pcall", name, t, args...) }

// objVal: what an object behind a pointer holds.
func (s *State) objVal(a *Term) *Term {
	a = stripConv(a)
	if v, ok := s.mem[mk("val", "", nil, a)]; ok {
		return v
	}
	if a.Op == "fa" {
		if v, ok := s.mem[mk("val", "", nil, a.Args[0])]; ok {
			return pointField(v, a.Sym)
		}
	}
	if a.Op == "alloc" && pointee(a.Typ) != nil {
		if isByteSeq(pointee(a.Typ)) {
			return s.bytesContent(a)
		}
		return zeroOf(pointee(a.Typ))
	}
	if a.Op == "global" {
		return a
	}
	return s.load(a)
}

func (s *State) setObj(a, v *Term) {
	a = stripConv(a)
	if a.Op == "alloc" && pointee(a.Typ) != nil && isByteSeq(pointee(a.Typ)) {
		s.setMem(a, mk(v.Op, v.Sym, pointee(a.Typ), v.Args...))
		return
	}
	if a.Op == "fa" {
		// one field of a point
		o := a.Args[0]
		s.setMem(mk("val", "", nil, o), mk("with", a.Sym, nil, s.objVal(o), v))
		return
	}
	s.setMem(mk("val", "", nil, a), v)
}

// pointField: a field of a point value.
func pointField(v *Term, n string) *Term {
	for v.Op == "with" {
		if v.Sym == n {
			return v.Args[1]
		}
		v = v.Args[0]
	}
	return mk("field", n, nil, v)
}

func (e *Engine) outParams(s *State, name string, callee *ssa.Function, args []*Term, c *ssa.CallCommon) ([]*Term, bool) {
	b := baseName(name)
	// hash states
	switch {
	case b == "New" && strings.HasPrefix(name, "blake2b."):
		if !isNilT(args[1]) {
			return nil, false
		}
		alg := pv("hash.Blake2b", nil, args[0])
		if n, ok := i64(args[0]); ok && n == 64 {
			alg = pv("hash.New512", nil)
		} else if ok && n == 32 {
			alg = pv("hash.New256", nil)
		}
		s.bumpSeq(kNil())
		h := mk("hobj", itoa(s.seq[kNil()]), c.Signature().Results().At(0).Type(), alg)
		s.setMem(hashT(h), mk("append", "", byteSliceT, kNil()))
		return []*Term{h, pv("hash.Err", c.Signature().Results().At(1).Type(), alg)}, true
	case b == "New512" || b == "New256" || b == "NewLegacyKeccak256" || b == "New" && strings.Contains(name, "hmac."):
		// a state of its own
		if len(args) > 0 && !isNilT(args[0]) && b != "New" {
			return nil, false
		}
		alg := pv("hash."+b, nil)
		if b == "New" {
			alg = pv("hash.HMAC", nil, args[0], s.bytesVal(args[1]))
		}
		s.bumpSeq(kNil())
		h := mk("hobj", itoa(s.seq[kNil()]), c.Signature().Results().At(0).Type(), alg)
		s.setMem(hashT(h), mk("append", "", byteSliceT, kNil()))
		if c.Signature().Results().Len() == 2 {
			return []*Term{h, pv("hash.Err", c.Signature().Results().At(1).Type(), alg)}, true
		}
		return []*Term{h}, true
	case (b == "Write" || b == "Sum" || b == "Reset") && len(args) > 0 && stripConv(args[0]).Op == "hobj":
		h := stripConv(args[0])
		st := s.mem[hashT(h)]
		if st == nil {
			return nil, false
		}
		switch b {
		case "Write":
			all := []*Term{st}
			if st.Op == "append" {
				all = append([]*Term{}, st.Args...)
			}
			x := s.bytesVal(args[1])
			s.setMem(hashT(h), mk("append", "", byteSliceT, append(all, mk("spread", "", x.Typ, x))...))
			return []*Term{s.lenOf(x, "len", types.Typ[types.Int]), kNil()}, true
		case "Reset":
			s.setMem(hashT(h), mk("append", "", byteSliceT, kNil()))
			return nil, true
		}
		d := pv("hash.Digest", byteSliceT, h.Args[0], st)
		dst := stripConv(args[1])
		if isNilT(dst) {
			return []*Term{d}, true
		}
		if dst.Op == "slice" && (isNilT(dst.Args[1]) || isZero(dst.Args[1])) && isZero(orZero(dst.Args[2])) && !isNilT(dst.Args[2]) {
			o := dst.Args[0]
			if o.Op == "alloc" && pointee(o.Typ) != nil && fixedLen(pointee(o.Typ)) == digestLen(h.Args[0]) {
				s.setObj(o, d)
				return []*Term{mk("slice", "", byteSliceT, o, kNil(), kNil())}, true
			}
		}
		return nil, false
	case b == "Sum512" && strings.HasPrefix(name, "blake2b."):
		x := s.bytesVal(args[0])
		return []*Term{pv("hash.Digest", c.Signature().Results().At(0).Type(), pv("hash.New512", nil), mk("append", "", byteSliceT, kNil(), mk("spread", "", x.Typ, x)))}, true
	case b == "Sum256" && strings.HasPrefix(name, "blake2b."):
		x := s.bytesVal(args[0])
		return []*Term{pv("hash.Digest", c.Signature().Results().At(0).Type(), pv("hash.New256", nil), mk("append", "", byteSliceT, kNil(), mk("spread", "", x.Typ, x)))}, true
	case strings.HasPrefix(name, "big.Float.") && floatFns[b]:
		var in []*Term
		for i, a := range args {
			if i == 0 && (b != "SetPrec") {
				continue
			}
			if isBigPtr(a.Typ) {
				in = append(in, s.big(a))
			} else if a.Typ != nil && pointee(a.Typ) != nil {
				in = append(in, s.objVal(a))
			} else {
				in = append(in, a)
			}
		}
		if cur := s.objVal(args[0]); strings.HasPrefix(b, "Set") && b != "SetPrec" && cur.Op == "pcall" && cur.Sym == "float.SetPrec" {
			in = append(in, cur.Args[1]) // rounded to the precision set before
		}
		s.setObj(args[0], pv("float."+b, nil, in...))
		return []*Term{args[0]}, true
	case strings.HasPrefix(name, "big.Float.") && b == "Text":
		return []*Term{pv("float.Text", types.Typ[types.String], append([]*Term{s.objVal(args[0])}, args[1:]...)...)}, true
	}
	if b == "ScMinimal" && strings.HasPrefix(name, "edwards25519.") && len(args) == 1 {
		return []*Term{pv("curve.ScMinimal", types.Typ[types.Bool], s.objVal(args[0]))}, true
	}
	at, ok := outFns[b]
	if !ok || !strings.HasPrefix(name, "edwards25519.") && !strings.HasPrefix(name, "curve25519.") || len(args) <= at || stripConv(args[at]).Op != "alloc" && stripConv(args[at]).Op != "fa" {
		return nil, false
	}
	var in []*Term
	for i, a := range args {
		if i != at {
			in = append(in, s.objVal(a))
		}
	}
	s.setObj(args[at], pv("curve."+b, nil, in...))
	if c.Signature().Results().Len() == 1 {
		return []*Term{pv("curve.Ok"+b, c.Signature().Results().At(0).Type(), in...)}, true
	}
	return nil, true
}

func digestLen(alg *Term) int64 {
	switch baseName(alg.Sym) {
	case "New512", "HMAC":
		return 64
	}
	return 32
}

// canon rewrites byte strings into canonical form: which bytes of which value
// follow each other, byte functions as tables.
type canon struct {
	p    *Path
	memo map[*Term]*Term
}

type cpiece struct {
	src    *Term // nil: zero bytes
	lo, hi int64 // hi < 0: all of it, length unknown
	scalar bool
}

var curveLen = map[string]int64{"ToBytes": 32, "ScReduce": 32, "ScMulAdd": 32, "FeToBytes": 32, "ScalarMult": 32, "ScalarBaseMult": 32}

func (c *canon) length(t *Term) (int64, bool) {
	t = stripConv(t)
	switch t.Op {
	case "pcall":
		if t.Sym == "hash.Digest" {
			return digestLen(t.Args[0]), true
		}
		if n, ok := curveLen[baseName(t.Sym)]; ok && strings.HasPrefix(t.Sym, "curve.") {
			return n, true
		}
	case "cat":
		var n int64
		for _, a := range t.Args {
			m, ok := c.length(a)
			if !ok {
				return 0, false
			}
			n += m
		}
		return n, true
	case "bytefn", "byte":
		return 1, true
	case "sub":
		lo, ok1 := i64(orZero(t.Args[1]))
		if isNilT(t.Args[2]) {
			n, ok := c.length(t.Args[0])
			return n - lo, ok && ok1
		}
		hi, ok2 := i64(t.Args[2])
		return hi - lo, ok1 && ok2
	case "zeros":
		return i64(t.Args[0])
	case "zerobytes":
		return i64(t.Args[0])
	case "bytesw":
		return c.length(t.Args[0])
	case "append":
		var n int64
		for _, a := range t.Args {
			if isNilT(a) {
				continue
			}
			if a.Op != "spread" {
				n++
				continue
			}
			m, ok := c.length(a.Args[0])
			if !ok {
				return 0, false
			}
			n += m
		}
		return n, true
	}
	if t.Op == "zero" || t.Op == "field" || t.Op == "param" || t.Op == "deref" || t.Op == "out" {
		if n := fixedLen(t.Typ); n > 0 {
			return n, true
		}
	}
	l := c.p.o.st.lenOf(t, "len", types.Typ[types.Int])
	if n, ok := i64(l); ok {
		return n, true
	}
	for _, n := range []int64{32, 64, 0, 8, 16} {
		if c.p.F.possible(l, kInt(n)) == EQ {
			return n, true
		}
	}
	return 0, false
}

func (c *canon) pieces(t *Term, lo, hi int64, depth int) []cpiece {
	if lo >= hi {
		return nil
	}
	t = stripConv(t)
	if depth < 50 {
		switch t.Op {
		case "zero", "zerobytes", "zeros":
			return []cpiece{{lo: lo, hi: hi}}
		case "slice":
			return c.pieces(c.p.o.st.bytesVal(t), lo, hi, depth+1)
		case "sub":
			if a, ok := i64(orZero(t.Args[1])); ok {
				return c.pieces(t.Args[0], a+lo, a+hi, depth+1)
			}
		case "cat":
			var out []cpiece
			at := int64(0)
			for _, a := range t.Args {
				n, ok := c.length(a)
				if !ok {
					return []cpiece{{src: c.norm(t), lo: lo, hi: hi}}
				}
				if x, y := max(lo, at), min(hi, at+n); x < y {
					if a.Op == "bytefn" || a.Op == "byte" {
						out = append(out, cpiece{src: a, lo: 0, hi: 1, scalar: true})
					} else {
						out = append(out, c.pieces(a, x-at, y-at, depth+1)...)
					}
				}
				at += n
			}
			return out
		case "append":
			var out []cpiece
			at := int64(0)
			for _, a := range t.Args {
				if isNilT(a) {
					continue
				}
				n, ok := int64(1), true
				if a.Op == "spread" {
					n, ok = c.length(a.Args[0])
				} else if a == t.Args[0] {
					n, ok = c.length(a)
				}
				if !ok {
					return []cpiece{{src: c.norm(t), lo: lo, hi: hi}}
				}
				if x, y := max(lo, at), min(hi, at+n); x < y {
					switch {
					case a.Op == "spread":
						out = append(out, c.pieces(a.Args[0], x-at, y-at, depth+1)...)
					case a == t.Args[0]:
						out = append(out, c.pieces(a, x-at, y-at, depth+1)...)
					default:
						out = append(out, cpiece{src: c.norm(a), lo: 0, hi: 1, scalar: true})
					}
				}
				at += n
			}
			return out
		case "bytesw":
			wlo, ok1 := i64(orZero(t.Args[1]))
			whi, ok2 := i64(t.Args[2])
			if !ok2 {
				n, ok := c.length(t.Args[3])
				if t.Args[2].Op == "len" || ok {
					whi, ok2 = wlo+n, ok
				}
			}
			if ok1 && ok2 {
				if total, ok := c.length(t.Args[0]); ok {
					whi = min(whi, total)
				}
				out := c.pieces(t.Args[0], lo, min(hi, wlo), depth+1)
				if a, b := max(lo, wlo), min(hi, whi); a < b {
					src := t.Args[3]
					if whi-wlo == 1 && !isByteSeq(src.Typ) {
						out = append(out, cpiece{src: c.norm(src), lo: 0, hi: 1, scalar: true})
					} else {
						out = append(out, c.pieces(src, a-wlo, b-wlo, depth+1)...)
					}
				}
				return append(out, c.pieces(t.Args[0], max(lo, whi), hi, depth+1)...)
			}
		}
	}
	return []cpiece{{src: c.norm(t), lo: lo, hi: hi}}
}

// join: the canonical byte string of the pieces.
func (c *canon) join(ps []cpiece) *Term {
	var m []cpiece
	for _, p := range ps {
		if k := len(m) - 1; k >= 0 && !p.scalar && !m[k].scalar && m[k].src == p.src && (p.src == nil || m[k].hi == p.lo) && p.hi >= 0 && m[k].hi >= 0 {
			m[k].hi += p.hi - p.lo
			continue
		}
		m = append(m, p)
	}
	var out []*Term
	for _, p := range m {
		switch {
		case p.scalar:
			s := p.src
			if s.Op == "elem" {
				if i, ok := i64(s.Args[1]); ok {
					s = mk("sub", "", nil, s.Args[0], kInt(i), kInt(i+1))
				}
			}
			out = append(out, s)
		case p.src == nil:
			out = append(out, mk("zeros", "", nil, kInt(p.hi-p.lo)))
		case p.hi < 0:
			out = append(out, p.src)
		default:
			if n, ok := c.length(p.src); ok && p.lo == 0 && p.hi == n {
				out = append(out, p.src)
			} else {
				out = append(out, mk("sub", "", nil, p.src, kInt(p.lo), kInt(p.hi)))
			}
		}
	}
	// neighbouring single bytes of the same value
	for i := 0; i+1 < len(out); {
		a, b := out[i], out[i+1]
		if a.Op == "sub" && b.Op == "sub" && a.Args[0] == b.Args[0] && a.Args[2] == b.Args[1] {
			out[i] = mk("sub", "", nil, a.Args[0], a.Args[1], b.Args[2])
			out = append(out[:i+1], out[i+2:]...)
			continue
		}
		i++
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", nil, out...)
}

func (c *canon) norm(t *Term) *Term {
	t = stripConv(t)
	if r, ok := c.memo[t]; ok {
		return r
	}
	c.memo[t] = t
	r := c.norm1(t)
	c.memo[t] = r
	return r
}

func (c *canon) norm1(t *Term) *Term {
	switch t.Op {
	case "const", "param", "global", "alloc", "iter", "zeros", "bytefn", "cat":
		return t
	case "slice":
		if v := c.p.o.st.bytesVal(t); v != t {
			return c.norm(v)
		}
	case "call", "pcall":
		if alg := map[string]string{"crypto.Hash256": "New256", "crypto.Hash512": "New512"}[strings.SplitN(t.Sym, "#", 2)[0]]; alg != "" && len(t.Args) == 1 && t.Args[0].Op == "list" {
			ps := []*Term{kNil()}
			for _, a := range t.Args[0].Args {
				ps = append(ps, mk("spread", "", nil, a))
			}
			return c.norm(pv("hash.Digest", nil, pv("hash."+alg, nil), mk("append", "", byteSliceT, ps...)))
		}
	case "append":
		var ps []cpiece
		for i, a := range t.Args {
			if isNilT(a) {
				continue
			}
			x := a
			if a.Op == "spread" {
				x = a.Args[0]
			} else if i > 0 {
				ps = append(ps, cpiece{src: c.norm(a), lo: 0, hi: 1, scalar: true})
				continue
			}
			if n, ok := c.length(x); ok {
				ps = append(ps, c.pieces(x, 0, n, 0)...)
			} else {
				y := c.norm(x)
				if y.Op == "cat" {
					for _, z := range y.Args {
						ps = append(ps, cpiece{src: z, hi: -1})
					}
				} else {
					ps = append(ps, cpiece{src: y, hi: -1})
				}
			}
		}
		return c.join(ps)
	case "bytesw", "sub", "zero", "zerobytes", "mkslice":
		if n, ok := c.length(t); ok && (t.Op != "mkslice") {
			return c.join(c.pieces(t, 0, n, 0))
		}
	case "elem":
		if i, ok := i64(t.Args[1]); ok {
			ps := c.pieces(t.Args[0], i, i+1, 0)
			if len(ps) == 1 {
				p := ps[0]
				switch {
				case p.scalar:
					return p.src
				case p.src == nil:
					return kInt(0)
				case p.src != t:
					return mk("elem", "", nil, p.src, kInt(p.lo))
				}
			}
		}
	case "bin", "un", "not", "lin":
		if r := c.byteFn(t); r != nil {
			return r
		}
	case "iterm":
		// a hash state every iteration leaves as it found it
		if t.Args[0].Op == "hst" {
			if _, ph := c.p.o.st.cellPhi(t); ph != nil {
				same := true
				for _, n := range ph.Next {
					same = same && n == ph.Init
				}
				if same {
					return c.norm(ph.Init)
				}
			}
		}
		return t
	case "with":
		// fields in a fixed order, each once
		fs := map[string]*Term{}
		v := t
		for v.Op == "with" {
			if fs[v.Sym] == nil {
				fs[v.Sym] = c.norm(v.Args[1])
			}
			v = v.Args[0]
		}
		r := c.norm(v)
		for _, k := range sortedKeys(fs) {
			r = mk("with", k, nil, r, fs[k])
		}
		return r
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = c.norm(a)
	}
	return mk(t.Op, t.Sym, nil, args...)
}

// byteFn: an expression over one byte, as its table.
func (c *canon) byteFn(t *Term) *Term {
	leaf, tab, ok := c.table(t)
	if !ok || leaf == nil {
		return nil
	}
	id := true
	var b strings.Builder
	for i, v := range tab {
		id = id && v == int64(i)
		b.WriteString(itoa(int(v)) + ",")
	}
	if id {
		return leaf
	}
	return mk("bytefn", b.String(), nil, leaf)
}

// table evaluates t for every value of its only unknown byte.
func (c *canon) table(t *Term) (leaf *Term, tab [256]int64, ok bool) {
	t = stripConv(t)
	if n, isC := i64(t); isC {
		for i := range tab {
			tab[i] = n
		}
		return nil, tab, true
	}
	if t.Op == "bytefn" {
		for i, x := range strings.Split(strings.TrimSuffix(t.Sym, ","), ",") {
			n, _ := strconv.Atoi(x)
			tab[i] = int64(n)
		}
		return t.Args[0], tab, true
	}
	if t.Op == "elem" {
		n := c.norm(t)
		if n != t {
			return c.table(n)
		}
		for i := range tab {
			tab[i] = int64(i)
		}
		return n, tab, true
	}
	if t.Op == "bin" && len(t.Args) == 2 {
		la, a, ok1 := c.table(t.Args[0])
		lb, b, ok2 := c.table(t.Args[1])
		if !ok1 || !ok2 || la != nil && lb != nil && la != lb {
			return nil, tab, false
		}
		for i := range tab {
			switch t.Sym {
			case "&":
				tab[i] = a[i] & b[i]
			case "|":
				tab[i] = a[i] | b[i]
			case "^":
				tab[i] = a[i] ^ b[i]
			case "&^":
				tab[i] = a[i] &^ b[i]
			case ">>":
				if b[i] < 0 || b[i] > 63 {
					return nil, tab, false
				}
				tab[i] = a[i] >> uint(b[i])
			default:
				return nil, tab, false
			}
		}
		if la == nil {
			la = lb
		}
		return la, tab, true
	}
	return nil, tab, false
}

// bytesAllowed: the values of a byte the path's facts leave open.
func (c *canon) bytesAllowed(leaf *Term) (set [256]bool) {
	for i := range set {
		set[i] = true
	}
	for _, f := range c.p.F {
		la, a, ok1 := c.table(f.A)
		lb, b, ok2 := c.table(f.B)
		if !ok1 || !ok2 || la != leaf && lb != leaf || la != nil && lb != nil && la != lb {
			continue
		}
		for i := range set {
			m := EQ
			if a[i] < b[i] {
				m = LT
			} else if a[i] > b[i] {
				m = GT
			}
			set[i] = set[i] && f.Mask&m != 0
		}
	}
	return set
}

func init() {
	register(&Prop{
		ID:    "C28",
		Title: "Signatures, hashes and proofs of work are computed and checked as specified",
		Statement: "A signature is accepted exactly if it is the Ed25519-with-Blake2b signature of the message under the public key: well-formed key and length, scalar below the group order, and the curve equation over the hash of R, key and message; signing produces exactly that signature, a key pair is derived from its 32-byte secret in one way only, and malformed keys or signatures are refused, never accepted; keys and nonces come from as many random bytes as they have, and decryption returns only text that authenticates. " +
			"The hash functions digest all of their inputs in order with the named algorithm. " +
			"A proof of work is accepted exactly if the hash of nonce and data is at least the target of the difficulty, and a search returns only nonces that are accepted.",
		Over:      []string{"inputs"},
		Quant:     "all keys, messages, signatures, inputs, nonces and difficulties",
		Why:       "Tests check round trips; a verifier that accepts more than it should, or a target that is a little too easy, passes all of them.",
		Files:     []string{"crypto/ed25519/ed25519.go", "crypto/crypto.go", "crypto/hash.go", "pow/pow.go", "crypto/ed25519/internal/edwards25519/edwards25519.go"},
		Mech:      [][2]string{{"verification", "crypto/ed25519/ed25519.go Verify"}, {"signing", "crypto/ed25519/ed25519.go Sign"}, {"scalar range", "crypto/ed25519/internal/edwards25519/edwards25519.go ScMinimal"}, {"hashes", "crypto/hash.go Hash256"}, {"proof of work", "pow/pow.go CheckPowNonce"}},
		Technique: "value-flow analysis: results written through pointers become values, byte strings are compared in canonical form (which bytes of which value, byte functions as tables), acceptance conditions on every path",
		Note:      "The field and group arithmetic of edwards25519, Blake2b, Keccak, curve25519 and math/big are trusted.",
		Run:       runC28,
	})
}

func cat(ts ...*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return mk("cat", "", nil, ts...)
}

func dig(alg string, ts ...*Term) *Term {
	return pv("hash.Digest", nil, pv("hash."+alg, nil), cat(ts...))
}

func subT(t *Term, lo, hi int64) *Term { return mk("sub", "", nil, t, kInt(lo), kInt(hi)) }

func byteTab(f func(int) int, leaf *Term) *Term {
	var b strings.Builder
	for i := 0; i < 256; i++ {
		b.WriteString(itoa(f(i)) + ",")
	}
	return mk("bytefn", b.String(), nil, leaf)
}

// clamped: the secret scalar of a digest.
func clamped(d *Term) *Term {
	el := func(i int64) *Term { return mk("elem", "", nil, d, kInt(i)) }
	return cat(byteTab(func(x int) int { return x & 248 }, el(0)), subT(d, 1, 31), byteTab(func(x int) int { return x&63 | 64 }, el(31)))
}

func (p *Path) canon() *canon { return &canon{p: p, memo: map[*Term]*Term{}} }

// fact: the path's facts, in canonical form, include a == b (eq) or a != b.
func (c *canon) fact(a, b *Term, eq bool) bool {
	for _, f := range c.p.F {
		x, y := c.norm(f.A), c.norm(f.B)
		if (x == a && y == b || x == b && y == a) && (eq && f.Mask == EQ || !eq && f.Mask&EQ == 0) {
			return true
		}
	}
	return false
}

func (c *canon) holds(b *Term, want bool) bool {
	return c.fact(b, kBool(true), want) || c.fact(b, kBool(false), !want)
}

func runC28(c *Ctx) {
	ed := "crypto/ed25519"
	newE := func(home string, opaque ...string) *Engine {
		e := c.Opts([]string{home}, opaque...)
		e.outVals = true
		return e
	}
	prm := func(name string) (func(i int) *Term, []Outcome, string) {
		f := c.Func(ed, name)
		if f == nil {
			return nil, nil, ""
		}
		outs := c.Paths(newE(ed, "Verify", "Sign"), f)
		return func(i int) *Term { return param(i, f.Params[i].Type()) }, outs, c.where(f)
	}
	// signing
	if A, outs, w := prm("Sign"); A != nil {
		n := 0
		for _, p := range c.all(outs) {
			n++
			cn := p.canon()
			d1 := dig("New512", subT(A(0), 0, 32))
			r := pv("curve.ScReduce", nil, dig("New512", subT(d1, 32, 64), A(1)))
			R := pv("curve.ToBytes", nil, pv("curve.GeScalarMultBase", nil, r))
			k := pv("curve.ScReduce", nil, dig("New512", R, subT(A(0), 32, 64), A(1)))
			s1 := pv("curve.ScMulAdd", nil, k, clamped(d1), r)
			s2 := pv("curve.ScMulAdd", nil, clamped(d1), k, r)
			got := cn.norm(p.o.res[0])
			c.Ob(got == cat(R, s1) || got == cat(R, s2), "signature", "Sign", p.where(), "not the signature: %s", trunc(got.String(), 400))
			c.Ob(p.F.possible(mk("len", "", nil, A(0)), kInt(64)) == EQ, "signature", "Sign", p.where(), "signs with a key of a wrong length")
		}
		c.Ob(n > 0, "signature", "Sign", w, "never signs")
	}
	// key pairs
	if A, outs, w := prm("GenerateKeyFromD"); A != nil {
		n := 0
		for _, p := range c.success(outs, 2) {
			n++
			cn := p.canon()
			pub := pv("curve.ToBytes", nil, pv("curve.GeScalarMultBase", nil, clamped(dig("New512", A(0)))))
			g0, g1 := cn.norm(p.o.res[0]), cn.norm(p.o.res[1])
			c.Ob(g0 == pub, "key-pair", "GenerateKeyFromD", p.where(), "the public key is %s", trunc(g0.String(), 300))
			c.Ob(g1 == cat(A(0), pub), "key-pair", "GenerateKeyFromD", p.where(), "the private key is %s", trunc(g1.String(), 300))
		}
		c.Ob(n > 0, "key-pair", "GenerateKeyFromD", w, "never makes a key")
		for range c.failure(outs, 2) {
			c.Ob(false, "key-pair", "GenerateKeyFromD", w, "refuses a secret")
		}
	}
	// verification
	for _, fn := range []string{"Verify", "VerifySig"} {
		A, outs, w := prm(fn)
		if A == nil {
			continue
		}
		yes, no := 0, 0
		for _, o := range c.all(outs) {
			res := stripConv(o.o.res[0])
			for _, acc := range []bool{true, false} {
				p := *o
				if fn == "Verify" {
					if res.Op == "const" {
						if isTrueT(res) != acc {
							continue
						}
					} else {
						f, ok := p.F.add(res, acc)
						if !ok {
							continue
						}
						p.F = f
					}
				} else {
					m := p.F.possible(res, kNil())
					if acc && m&EQ == 0 || !acc && m == EQ {
						continue
					}
				}
				cn := p.canon()
				pub, msg, sig := A(0), A(1), A(2)
				pt := pv("curve.FromBytes", nil, pub)
				neg := mk("with", "X", nil, mk("with", "T", nil, pt, pv("curve.FeNeg", nil, mk("field", "T", nil, pt))), pv("curve.FeNeg", nil, mk("field", "X", nil, pt)))
				neg = cn.norm(neg)
				hr := pv("curve.ScReduce", nil, dig("New512", subT(sig, 0, 32), pub, msg))
				R := pv("curve.ToBytes", nil, pv("curve.GeDoubleScalarMultVartime", nil, hr, neg, subT(sig, 32, 64)))
				lenOK := func(a *Term, n int64) bool { return p.F.possible(mk("len", "", nil, a), kInt(n)) == EQ }
				lenBad := func(a *Term, n int64) bool { return p.F.possible(mk("len", "", nil, a), kInt(n))&EQ == 0 }
				low := cn.bytesAllowed(mk("elem", "", nil, sig, kInt(63)))
				if acc {
					yes++
					c.Ob(lenOK(pub, 32), "verify", fn, p.where(), "accepts a key of a wrong length: %s", p.Describe())
					c.Ob(lenOK(sig, 64), "verify", fn, p.where(), "accepts a signature of a wrong length: %s", p.Describe())
					c.Ob(cn.holds(pv("curve.OkFromBytes", nil, pub), true), "verify", fn, p.where(), "accepts a key that is no point: %s", p.Describe())
					c.Ob(cn.holds(pv("curve.ScMinimal", nil, subT(sig, 32, 64)), true), "verify", fn, p.where(), "accepts a scalar that may exceed the group order (malleable): %s", p.Describe())
					c.Ob(cn.fact(subT(sig, 0, 32), R, true), "verify", fn, p.where(), "accepts without the curve equation: %s", p.Describe())
					continue
				}
				no++
				top := true
				for i := 0; i < 32; i++ {
					top = top && !low[i]
				}
				ok := lenBad(pub, 32) || lenBad(sig, 64) || top || cn.holds(pv("curve.OkFromBytes", nil, pub), false) ||
					cn.holds(pv("curve.ScMinimal", nil, subT(sig, 32, 64)), false) || cn.fact(subT(sig, 0, 32), R, false) || p.Holds("Err(_) != nil")
				c.Ob(ok, "verify", fn, p.where(), "refuses a good signature: %s", p.Describe())
			}
		}
		c.Ob(yes > 0 && no > 0, "verify", fn, w, "always gives the same answer")
	}
	// Diffie-Hellman keys
	if A, outs, _ := prm("PrivateKey.ToX25519Sk"); A != nil {
		for _, p := range c.all(outs) {
			got := p.canon().norm(p.o.res[0])
			c.Ob(got == clamped(dig("New512", subT(A(0), 0, 32))), "key-pair", "PrivateKey.ToX25519Sk", p.where(), "the secret is %s", trunc(got.String(), 300))
		}
	}
	if A, outs, _ := prm("PublicKey.ToX25519Pk"); A != nil {
		for _, p := range c.all(outs) {
			got := p.canon().norm(p.o.res[0])
			b, ok := matchT(pat("FeToBytes(FeMul(FeAdd(FeOne(), X), FeInvert(FeSub(FeOne(), X))))"), got, Bind{})
			if !ok {
				b, ok = matchT(pat("FeToBytes(FeMul(FeAdd(X, FeOne()), FeInvert(FeSub(FeOne(), X))))"), got, Bind{})
			}
			if ok {
				x := b["X"]
				ok = x.Op == "field" && x.Sym == "Y" && isT(x.Args[0], "FromBytes(_)") && mentions(x, A(0))
			}
			c.Ob(ok, "key-pair", "PublicKey.ToX25519Pk", p.where(), "the key is %s", trunc(got.String(), 300))
		}
	}
	for _, s := range parseSpecs(sigSpec) {
		c.specFn(c.Opts([]string{ed}, "Verify", "Sign", "GenerateKeyFromD", "PubByte"), ed, s, "key-pair")
	}
	if A, outs, _ := prm("PrivateKey.PubByte"); A != nil {
		for _, p := range c.all(outs) {
			ok := false
			for _, ev := range p.Evs {
				if ev.Kind == "copy" && isT(ev.Args[1], "A0[32:]") {
					ok = true
				}
			}
			n, isN := i64(p.o.st.lenOf(stripConv(p.o.res[0]), "len", types.Typ[types.Int]))
			c.Ob(ok && isN && n == 32 || isT(p.o.res[0], "A0[32:]"), "key-pair", "PrivateKey.PubByte", p.where(), "not the public half of the key: %s", trunc(p.o.res[0].String(), 200))
		}
	}
	for _, s := range parseSpecs(sigCryptoSpec) {
		c.specFn(newE("crypto"), "crypto", s, "verify")
	}
	if f := c.Func("crypto", "X25519ComputeSecret"); f != nil {
		outs := c.Paths(newE("crypto"), f)
		for _, p := range c.success(outs, 1) {
			a, b := param(0, f.Params[0].Type()), param(1, f.Params[1].Type())
			got := p.canon().norm(p.o.res[0])
			c.Ob(p.Holds("len(A0) == 32") && p.Holds("len(A1) == 32") || got.Op == "ext", "key-pair", "X25519ComputeSecret", p.where(), "accepts keys of a wrong length")
			c.Ob(got == pv("curve.ScalarMult", nil, a, b) || got.Op == "ext" && isT(got, "X25519(A0, A1).R0"), "key-pair", "X25519ComputeSecret", p.where(), "the secret is %s", trunc(got.String(), 200))
		}
	}
	// randomness: all of the bytes asked for, or none
	filled := func(p *Path, t *Term, src string, n string) bool {
		t = stripConv(t)
		if t.Op == "slice" {
			t = stripConv(t.Args[0])
		}
		for _, ev := range calls(p.Evs, "ReadFull") {
			if !(isT(ev.Args[0], src) || src == "Reader" && isT(ev.Args[0], "rand.Reader")) || !p.Holds("ReadFull(_, _).R1 == nil") {
				continue
			}
			z := stripConv(ev.Args[1])
			if z.Op == "zerobytes" && isT(z.Args[0], n) {
				return true
			}
			if itoa(int(fixedLen(z.Typ))) == n {
				return true
			}
		}
		return false
	}
	if f := c.Func("crypto", "GetEntropyCSPRNG"); f != nil {
		n := 0
		for _, p := range c.all(c.Paths(newE("crypto"), f)) {
			n++
			c.Ob(isT(p.o.st.lenOf(stripConv(p.o.res[0]), "len", types.Typ[types.Int]), "A0") && filled(p, p.o.res[0], "Reader", "A0"), "random", "GetEntropyCSPRNG", p.where(), "not the random bytes asked for: %s", p.Describe())
		}
		c.Ob(n > 0, "random", "GetEntropyCSPRNG", c.where(f), "never returns")
	}
	if f := c.Func(ed, "GenerateKey"); f != nil {
		n := 0
		for _, p := range c.success(c.Paths(newE(ed, "GenerateKeyFromD"), f), 2) {
			n++
			src := "A0"
			if p.Holds("A0 == nil") {
				src = "Reader"
			}
			b, ok := matchT(pat("GenerateKeyFromD(X).R0"), stripConv(p.o.res[0]), Bind{})
			_, ok1 := matchT(pat("GenerateKeyFromD(X).R1"), stripConv(p.o.res[1]), Bind{})
			ok = ok && ok1 && (stripConv(b["X"]).Op == "out" || stripConv(b["X"]).Op == "pcall")
			c.Ob(ok && filled(p, b["X"], src, "32"), "random", "GenerateKey", p.where(), "the secret is not 32 random bytes: %s", p.Describe())
		}
		c.Ob(n > 0, "random", "GenerateKey", c.where(f), "never makes a key")
	}
	for _, s := range parseSpecs(sigAesSpec) {
		c.specFn(c.Opts([]string{"crypto"}, "GetEntropyCSPRNG"), "crypto", s, "encryption")
	}
	c.sigHashes("hash")
	c.sigPow(newE)
	c.scMinimal()
}

const sigSpec = `
fn HexToPublicKey
 err 1
 def D DecodeString(A0)
 ok $D.R1 == nil
 ok len($D.R0) == 32
 ret 0 $D.R0

fn HexToPrivateKey
 err 1
 def D DecodeString(A0)
 ok $D.R1 == nil
 ok len($D.R0) == 64
 ret 0 $D.R0

fn IsValidPrivateKey
 ret 0 iff len(A0) == 64 && Verify(PubByte(A0), _, Sign(A0, _))

fn PrivateKey.Sign
 err 1
 ok HashFunc(A3) == 0
 ret 0 Sign(A0, A2)

fn PrivateKey.Public
 ret 0 PubByte(A0)

fn PrivateKey.Hex
 ret 0 EncodeToString(A0)

fn PublicKey.Hex
 ret 0 EncodeToString(A0)
`

const sigCryptoSpec = `
fn VerifySig
 err 1
 ok len(A0) == 32
 ret 0 Verify(A0, A1, A2)
`

const sigAesSpec = `
fn AesGCMEncrypt
 err 2
 def C NewCipher(A0)
 def G NewGCM($C.R0)
 ok $C.R1 == nil
 ok $G.R1 == nil
 ret 0 Seal($G.R0, nil, GetEntropyCSPRNG(12), A1, "vite")
 ret 1 GetEntropyCSPRNG(12)

fn AesGCMDecrypt
 err 1
 def C NewCipher(A0)
 def G NewGCM($C.R0)
 def O Open($G.R0, nil, A2, A1, "vite")
 ok $C.R1 == nil
 ok $G.R1 == nil
 ok $O.R1 == nil
 ret 0 $O.R0
`

// sigHashes: every input, in order, and nothing else.
func (c *Ctx) sigHashes(rule string, names ...string) {
	newE := func() *Engine {
		e := c.Opts([]string{"crypto"})
		e.outVals = true
		return e
	}
	for _, x := range []struct{ fn, alg string }{{"Hash256", "hash.New256"}, {"Keccak256", "hash.NewLegacyKeccak256"}, {"Hash512", "hash.New512"}, {"Hash", "hash.Blake2b"}} {
		if len(names) > 0 && !strings.Contains(" "+strings.Join(names, " ")+" ", " "+x.fn+" ") {
			continue
		}
		f := c.Func("crypto", x.fn)
		if f == nil {
			continue
		}
		data := "A" + itoa(len(f.Params)-1)
		for _, p := range c.all(c.Paths(newE(), f)) {
			cn := p.canon()
			d := stripConv(p.o.res[0])
			ok := d.Op == "pcall" && d.Sym == "hash.Digest" && d.Args[0].Sym == x.alg
			if ok && x.fn == "Hash" {
				ok = isT(d.Args[0].Args[0], "A0")
			}
			if ok {
				ok = false
				_, ph := p.o.st.cellPhi(d.Args[1])
				ev, pos := p.walks(data, 0)
				if ph != nil && ev != nil && cn.norm(ph.Init).Op == "cat" && len(cn.norm(ph.Init).Args) == 0 {
					ok = true
					want := mk("append", "", byteSliceT, ph.Iter, mk("spread", "", nil, mk("elem", "", nil, param(len(f.Params)-1, f.Params[len(f.Params)-1].Type()), pos)))
					for _, n := range ph.Next {
						ok = ok && n == want
					}
				}
			}
			c.Ob(ok, rule, x.fn, p.where(), "not the digest of all inputs in order: %s", trunc(d.String(), 300))
		}
	}
}

const powSpec = `
fn CheckPowNonce
 alt T VMTestParamEnabled ? 65535 : DifficultyToTarget(A0)
 ret 0 iff VMTestParamEnabled || DifficultyToTarget(A0) != nil && VMTestParamEnabled || BitLen(DifficultyToTarget(A0)) <= 256 && QuickGreater(powHash256(A1, A2), LeftPadBytes(Bytes($T), 32))
`

func (c *Ctx) sigPow(newE func(string, ...string) *Engine) {
	for _, s := range parseSpecs(powSpec) {
		c.specFn(c.Opts([]string{"pow"}, "DifficultyToTarget", "QuickGreater", "powHash256", "LeftPadBytes"), "pow", s, "pow")
	}
	if f := c.Func("pow", "powHash256"); f != nil {
		for _, p := range c.all(c.Paths(newE("pow"), f)) {
			got := p.canon().norm(p.o.res[0])
			c.Ob(got == dig("New256", param(0, f.Params[0].Type()), param(1, f.Params[1].Type())), "pow", "powHash256", p.where(), "the hash is %s", trunc(got.String(), 200))
		}
	}
	if f := c.Func("pow", "DifficultyToTarget"); f != nil {
		for _, p := range c.all(c.Paths(newE("pow"), f)) {
			got := p.canon().norm(p.o.res[0])
			form := "SetString(Text(Quo(floatTwo256, Add(Quo(float1, X), float1)), 102, 0), 10)"
			b, ok := matchT(pat(form), got, Bind{})
			if !ok {
				b, ok = matchT(pat("SetString(Text(Quo(floatTwo256, Add(float1, Quo(float1, X))), 102, 0), 10)"), got, Bind{})
			}
			ok = ok && b["X"].Op == "pcall" && b["X"].Sym == "float.SetInt" && isT(b["X"].Args[0], "A0") && len(b["X"].Args) == 2
			c.Ob(ok, "pow", "DifficultyToTarget", p.where(), "the target is %s", trunc(got.String(), 300))
		}
	}
	for n, want := range map[string]string{
		"floatTwo256":   "SetInt(SetPrec(new(Float),prec),Exp(new(Int),NewInt(2),NewInt(256),NewInt(0)))|SetInt(SetPrec(new(Float),prec),Exp(new(Int),NewInt(2),NewInt(256),nil))|SetInt(SetPrec(new(Float),prec),Lsh(new(Int),NewInt(1),256))",
		"float1":        "SetUint64(SetPrec(new(Float),prec),1)|SetInt64(SetPrec(new(Float),prec),1)",
		"prec":          "64",
		"defaultTarget": "SetUint64(new(Int),65535)",
	} {
		x, pk := c.globalExpr("pow", n)
		got := callTree(pk, x)
		ok := false
		for _, w := range strings.Split(want, "|") {
			ok = ok || got == w
		}
		c.Ob(ok, "pow", n, "pow/pow.go", "is %s", got)
	}
	if f := c.Func("pow", "QuickGreater"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{"pow"}), f)) {
			c.Ob(c.lexGreater(p), "pow", "QuickGreater", p.where(), "not the order of 32-byte numbers: %s", p.Describe())
		}
	}
	e := newE("pow", "QuickGreater", "LeftPadBytes", "DifficultyToTarget", "GetEntropyCSPRNG")
	for _, fn := range []string{"GetPowNonce", "MapPowNonce", "MapPowNonce2"} {
		f := c.Func("pow", fn)
		if f == nil {
			continue
		}
		errAt := f.Signature.Results().Len() - 1
		n := 0
		for _, p := range c.success(c.Paths(e, f), errAt) {
			n++
			cn := p.canon()
			nonce := cn.norm(p.o.res[0])
			ok := false
			for _, f := range p.F {
				t := cn.norm(f.A)
				b, m := matchT(pat("QuickGreater(X, LeftPadBytes(Bytes(Y), 32))"), t, Bind{})
				if !m || !isTrueT(f.B) || f.Mask != EQ {
					continue
				}
				x, y := b["X"], stripConv(b["Y"])
				tgt := isT(y, "DifficultyToTarget(A0)") && p.Holds("DifficultyToTarget(A0) != nil") && p.Holds("BitLen(DifficultyToTarget(A0)) <= 256") || p.Holds("VMTestParamEnabled") && isT(y, "65535")
				hit := x.Op == "pcall" && x.Sym == "hash.Digest" && x.Args[0].Sym == "hash.New256"
				if hit {
					in := x.Args[1]
					hit = in.Op == "cat" && len(in.Args) == 2 && cn.norm(in.Args[0]) == nonce && isT(in.Args[1], "A1")
				}
				ok = ok || tgt && hit
			}
			c.Ob(ok, "pow", fn, p.where(), "returns a nonce that was not checked: %s %s", trunc(nonce.String(), 100), p.Describe())
		}
		c.Ob(n > 0, "pow", fn, c.where(f), "never finds a nonce")
	}
}

// lexGreater: A0 >= A1 as 32-byte numbers, byte by byte from the first.
func (c *Ctx) lexGreater(p *Path) bool {
	res := stripConv(p.o.res[0])
	if isT(res, "Compare(A0, A1) >= 0") || isT(res, "Compare(A0[:32], A1[:32]) >= 0") {
		return true
	}
	if res.Op != "const" {
		for _, v := range []bool{true, false} {
			q := *p
			q.o.res = []*Term{kBool(v)}
			nf, ok := append(Facts{}, p.F...).add(res, v)
			if !ok {
				continue
			}
			q.F = nf
			if !c.lexGreater(&q) {
				return false
			}
		}
		return true
	}
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			n, isN := i64(ph.Init)
			if !isN || n != 0 && n != -1 || !stepOne(ph) {
				continue
			}
			for _, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				q.B = Bind{"I": ph.Iter}
				if !q.Holds("A0[I] == A1[I]") {
					return false
				}
			}
			q := *p
			q.B = Bind{"I": ph.Iter}
			switch {
			case q.Holds("A0[I] > A1[I]"):
				return isTrueT(res) && q.Holds("I < 32")
			case q.Holds("A0[I] < A1[I]"):
				return isFalseT(res) && q.Holds("I < 32")
			}
			return isTrueT(res) && q.Holds("I >= 32") && !q.Holds("I > 32")
		}
	}
	return false
}

// scMinimal: the scalar is below the group order, compared word by word from
// the highest.
func (c *Ctx) scMinimal() {
	ew := "crypto/ed25519/internal/edwards25519"
	f := c.Func(ew, "ScMinimal")
	if f == nil {
		return
	}
	for _, p := range c.all(c.Paths(c.Opts([]string{ew}), f)) {
		ok := false
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				if n, isN := i64(ph.Init); !isN || n != 3 {
					continue
				}
				cmp := func(q *Path, m int) bool {
					for _, f := range q.F {
						for _, ab := range [][2]*Term{{f.A, f.B}, {f.B, f.A}} {
							a, b := ab[0], ab[1]
							if a.Op != "rdle64" || !isTB(b, "order[I]", Bind{"I": ph.Iter}) {
								continue
							}
							x := a.Args[0]
							if x.Op != "sub" || !isT(x.Args[0], "*A0") || x.Args[1] != mkBin(token.MUL, kInt(8), ph.Iter, ph.Iter.Typ) || !isNilT(x.Args[2]) && x.Args[2] != mkBin(token.ADD, x.Args[1], kInt(8), ph.Iter.Typ) {
								continue
							}
							return q.F.possible(a, b) == m
						}
					}
					return false
				}
				ok = true
				for j, st := range ev.Loop.Iters {
					q := p.iterPath(ev, st, nil)
					ok = ok && cmp(q, EQ) && ph.Next[j] == mkBin(token.SUB, ph.Iter, kInt(1), ph.Iter.Typ)
				}
				q := *p
				q.B = Bind{"I": ph.Iter}
				res := stripConv(p.o.res[0])
				ok = ok && (cmp(&q, LT) && isTrueT(res) || cmp(&q, GT) && isFalseT(res) || cmp(&q, EQ) && q.Holds("I == 0") && isFalseT(res))
			}
		}
		c.Ob(ok, "verify", "ScMinimal", p.where(), "not the comparison with the group order: %s", p.Describe())
	}
	vals, pos := c.globalInts(ew, "order")
	want := []uint64{0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0, 0x1000000000000000}
	same := len(vals) == len(want)
	for i := range vals {
		same = same && vals[i] == want[i]
	}
	c.Ob(same, "verify", "order", pos, "the group order is %x", vals)
}

// globalExpr: the initialiser of a package variable.
func (c *Ctx) globalExpr(rel, name string) (ast.Expr, *packages.Package) {
	pk := c.P.ByRel[rel]
	if pk == nil {
		return nil, nil
	}
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range g.Specs {
				v, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, n := range v.Names {
					if n.Name == name && i < len(v.Values) {
						return v.Values[i], pk
					}
				}
			}
		}
	}
	return nil, pk
}

// globalInts: the values of an integer table.
func (c *Ctx) globalInts(rel, name string) ([]uint64, string) {
	x, pk := c.globalExpr(rel, name)
	cl, ok := x.(*ast.CompositeLit)
	if !ok {
		return nil, rel
	}
	var out []uint64
	for _, e := range cl.Elts {
		tv := pk.TypesInfo.Types[e]
		if tv.Value == nil {
			return nil, c.P.pos(x.Pos())
		}
		n, _ := constant.Uint64Val(constant.ToInt(tv.Value))
		out = append(out, n)
	}
	return out, c.P.pos(x.Pos())
}

// callTree: a method chain as nested calls, constants by value.
func callTree(pk *packages.Package, x ast.Expr) string {
	if x == nil {
		return "?"
	}
	if tv, ok := pk.TypesInfo.Types[x]; ok && tv.Value != nil {
		return tv.Value.ExactString()
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return callTree(pk, x.X)
	case *ast.CallExpr:
		var as []string
		n := "?"
		switch f := x.Fun.(type) {
		case *ast.SelectorExpr:
			n = f.Sel.Name
			if id, ok := f.X.(*ast.Ident); ok {
				if _, isPkg := pk.TypesInfo.Uses[id].(*types.PkgName); isPkg {
					break
				}
			}
			as = append(as, callTree(pk, f.X))
		case *ast.Ident:
			n = f.Name
		}
		for _, a := range x.Args {
			as = append(as, callTree(pk, a))
		}
		return n + "(" + strings.Join(as, ",") + ")"
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	}
	return "?"
}
