package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const typesPkg = "common/types"

func init() {
	register(&Prop{
		ID:    "C15",
		Title: "Identifiers convert without loss and reject anything malformed",
		Statement: "A hash, address, token id or group id is only ever set from exactly as many bytes as it has, and a rejected input leaves the identifier unchanged. " +
			"The text of an address is accepted exactly when it is 'vite_' followed by 40 hex digits and a 10-digit checksum; the checksum (the 5-byte hash of the core, or its complement for contracts) decides whether the address is a user or a contract address, and printing an address gives the text it was read from. A token id is 'tti_', 20 hex digits and the 4-digit hash of the id; hashes and group ids are plain hex of exact length. " +
			"JSON and text decoding set an identifier only from such a text in quotes. The address of a public key is its 20-byte hash with the user mark, a new contract address is the 20-byte hash of its inputs with the contract mark, an address is a contract address exactly when its last byte is 1, and the built-in contract tests accept exactly the listed contracts. Hash functions consume every one of their inputs in order.",
		Over:      []string{"inputs"},
		Quant:     "all strings, byte strings and identifiers",
		Why:       "Malformed texts are infinitely many; tests try a few.",
		Files:     []string{"common/types/address.go", "common/types/hash.go", "common/types/gid.go", "common/types/tokentypeid.go", "common/types/jsonutils.go", "crypto/hash.go", "common/helper/common.go"},
		Mech:      [][2]string{{"parsing", "ValidHexAddress, HexToTokenTypeId, HexToHash, HexToGid"}, {"construction", "SetBytes, PubkeyToAddress, CreateContractAddress"}, {"classification", "IsContractAddr and the IsBuiltin functions"}},
		Technique: "path-sensitive analysis of each conversion: the condition under which it succeeds and the value it then returns, compared with the format definition",
		Note:      "encoding/hex and blake2b are trusted.",
		Run:       runC15,
	})
}

// normPath rewrites "array filled completely from x" to x in facts and results.
type normed struct {
	*Path
	memo map[*Term]*Term
}

func (p *Path) norm() *normed {
	n := &normed{Path: &Path{c: p.c, o: p.o, Evs: p.Evs, B: p.B}, memo: map[*Term]*Term{}}
	n.F = p.F
	var nf Facts
	for _, f := range p.F {
		nf = append(nf, Fact{n.t(f.A), n.t(f.B), f.Mask})
	}
	n.F = append(append(Facts{}, p.F...), nf...)
	return n
}

func (n *normed) t(t *Term) *Term {
	if r, ok := n.memo[t]; ok {
		return r
	}
	r := t
	if t.Op == "bytesw" && t.Args[0].Op == "zero" && t.Args[0].Typ != nil {
		if l, ok := arrayLen(t.Args[0].Typ); ok && (isNilT(t.Args[1]) || isZero(t.Args[1])) && n.F.possible(t.Args[2], kInt(l)) == EQ {
			r = n.t(stripConv(t.Args[3]))
			n.memo[t] = r
			return r
		}
	}
	if len(t.Args) > 0 {
		var as []*Term
		ch := false
		for _, a := range t.Args {
			b := n.t(a)
			ch = ch || a != b
			as = append(as, b)
		}
		if ch {
			r = mk(t.Op, t.Sym, t.Typ, as...)
		}
	}
	n.memo[t] = r
	return r
}

func negPat(s string) string {
	for _, r := range [][2]string{{" == ", " != "}, {" != ", " == "}, {" <= ", " > "}, {" >= ", " < "}, {" < ", " >= "}, {" > ", " <= "}} {
		if i := strings.LastIndex(s, r[0]); i >= 0 {
			return s[:i] + r[1] + s[i+len(r[0]):]
		}
	}
	if strings.HasPrefix(s, "!") {
		return s[1:]
	}
	return "!" + s
}

// hashLen drops paths that assume a hash of n bytes has another length.
func hashLen(p *Path) bool {
	for _, f := range p.F {
		l, k := f.A, f.B
		if l.Op != "len" {
			l, k = k, l
		}
		if l.Op != "len" || f.Mask&EQ != 0 {
			continue
		}
		if b, ok := matchT(pat("Hash(X, ___)"), l.Args[0], Bind{}); ok && b["X"] == k {
			return false
		}
		if isT(l.Args[0], "Hash256(___)") && k.String() == "32" {
			return false
		}
		if b, ok := matchT(pat("DecodeString(X).R0"), l.Args[0], Bind{}); ok {
			// the decoded length is half the text length
			if n, ok := i64(k); ok {
				lo, hi := p.F.linBounds(p.o.st.lenOf(b["X"], "len", types.Typ[types.Int]))
				v := constant.MakeInt64(2 * n)
				if lo != nil && hi != nil && constant.Compare(lo, token.EQL, v) && constant.Compare(hi, token.EQL, v) {
					return false
				}
			}
		}
		// append(hash20, x) etc.
	}
	return true
}

// A condition is a disjunction ("a || b") of alternatives, each of which may
// be written in several equivalent forms ("a ~ b").
func condHolds(p *Path, k string) bool {
	for _, alt := range strings.Split(k, " || ") {
		for _, form := range strings.Split(alt, " ~ ") {
			if p.Holds(strings.TrimSpace(form)) {
				return true
			}
		}
	}
	return false
}

func condFails(p *Path, k string) bool {
	for _, alt := range strings.Split(k, " || ") {
		neg := false
		for _, form := range strings.Split(alt, " ~ ") {
			neg = neg || p.Holds(negPat(strings.TrimSpace(form)))
		}
		if !neg {
			return false
		}
	}
	return true
}

// iff: on yes-paths every condition holds, on no-paths at least one fails.
func (c *Ctx) iff(rule, construct string, yes, no []*Path, conds ...string) {
	for _, p := range yes {
		if !hashLen(p) {
			continue
		}
		n := p.norm()
		for _, k := range conds {
			c.Ob(condHolds(n.Path, k), rule, construct, p.where(), "accepts although not known: %s: %s", k, p.Describe())
		}
	}
	for _, p := range no {
		if !hashLen(p) {
			continue
		}
		n := p.norm()
		ok := false
		for _, k := range conds {
			ok = ok || condFails(n.Path, k)
		}
		c.Ob(ok, rule, construct, p.where(), "refuses although nothing is wrong: %s", p.Describe())
	}
}

func (c *Ctx) failure(outs []Outcome, i int) []*Path {
	var out []*Path
	for _, o := range outs {
		if o.panic || i >= len(o.res) {
			continue
		}
		f, ok := o.st.facts.add(mkCmp(o.res[i], kNil(), NE), true)
		if ok {
			out = append(out, &Path{c: c, o: o, F: f, Evs: o.st.Events()})
		}
	}
	return out
}

func (c *Ctx) yesno(outs []Outcome, i int) (yes, no []*Path) {
	return c.withRes(outs, i, kBool(true)), c.withRes(outs, i, kBool(false))
}

func runC15(c *Ctx) {
	e := c.Opts([]string{typesPkg}, "Hash", "LDI", "AllZero", "LeftPadBytes", "Hash256")
	idTypes := []struct {
		t string
		n string
	}{{"Hash", "32"}, {"Address", "21"}, {"TokenTypeId", "10"}, {"Gid", "10"}}
	for _, id := range idTypes {
		if f := c.Func(typesPkg, id.t+".SetBytes"); f != nil {
			outs := c.Paths(e, f)
			c.iff("set-bytes", id.t+".SetBytes", c.success(outs, 0), c.failure(outs, 0), "len(A1) == "+id.n)
			for _, p := range c.success(outs, 0) {
				c.Ob(fullCopy(p, "A0", "A1"), "set-bytes", id.t+".SetBytes", p.where(), "the bytes are not all taken over: %s", p.Describe())
			}
			for _, p := range c.failure(outs, 0) {
				c.Ob(!writesTo(p, "A0"), "set-bytes", id.t+".SetBytes", p.where(), "a refused input changes the identifier")
			}
		}
		if f := c.Func(typesPkg, "BytesTo"+id.t); f != nil {
			outs := c.Paths(e, f)
			c.iff("from-bytes", "BytesTo"+id.t, c.success(outs, 1), c.failure(outs, 1), "len(A0) == "+id.n)
			for _, p := range c.success(outs, 1) {
				c.Ob(isBytes(p, p.o.res[0], spS("A0")), "from-bytes", "BytesTo"+id.t, p.where(), "the result is %v", p.o.res[0])
			}
		}
		if f := c.Func(typesPkg, id.t+".Bytes"); f != nil {
			for _, p := range c.all(c.Paths(e, f)) {
				c.Ob(isBytes(p, p.o.res[0], spS("A0")), "to-bytes", id.t+".Bytes", p.where(), "the bytes are %v", p.o.res[0])
			}
		}
		for _, m := range []string{"String", "Hex"} {
			if f := c.Func(typesPkg, id.t+"."+m); f != nil {
				for _, p := range c.all(c.Paths(e, f)) {
					c.Ob(textOf(p, id.t, "A0", p.o.res[0]), "to-text", id.t+"."+m, p.where(), "the text of %s is %v: %s", id.t, p.o.res[0], p.Describe())
				}
			}
		}
		if f := c.Func(typesPkg, id.t+".MarshalText"); f != nil {
			for _, p := range c.all(c.Paths(e, f)) {
				r := p.o.res[0]
				for r.Op == "conv" {
					r = r.Args[0]
				}
				c.Ob(isNilT(p.o.res[1]) && textOf(p, id.t, "A0", stripConvB(r)), "to-text", id.t+".MarshalText", p.where(), "the text of %s is %v", id.t, p.o.res[0])
			}
		}
	}
	c.Floor("set-bytes", 8)
	c.Floor("from-bytes", 8)
	c.Floor("to-text", 12)

	// parsing
	user := "Hash(5, list(DecodeString(S[5:45]).R0)) == DecodeString(S[45:]).R0"
	contract := "Hash(5, list(DecodeString(S[5:45]).R0)) == LDI(DecodeString(S[45:]).R0) ~ LDI(Hash(5, list(DecodeString(S[5:45]).R0))) == DecodeString(S[45:]).R0"
	hexVal := func(lo string) func(p *Path, s string) []sp {
		return func(p *Path, s string) []sp { return []sp{spS("DecodeString(" + s + lo + ").R0")} }
	}
	addr := parseSpec{
		conds: []string{"len(S) == 55", `HasPrefix(S, "vite_")`, "DecodeString(S[5:45]).R1 == nil", "DecodeString(S[45:]).R1 == nil", user + " || " + contract},
		val: func(p *Path, s string) []sp {
			kind := "1"
			if condHolds(p, atS(user, s)) {
				kind = "0"
			}
			return []sp{spS("DecodeString(" + s + "[5:45]).R0"), spB(kind)}
		}}
	parse := map[string]parseSpec{
		"HexToHash":        {conds: []string{"len(S) == 64", "DecodeString(S).R1 == nil"}, val: hexVal("")},
		"HexToGid":         {conds: []string{"len(S) == 20", "DecodeString(S).R1 == nil"}, val: hexVal("")},
		"HexToTokenTypeId": {conds: []string{"len(S) == 28", `HasPrefix(S, "tti_")`, "DecodeString(S[4:24]).R1 == nil", "DecodeString(S[24:]).R1 == nil", "Hash(2, list(DecodeString(S[4:24]).R0)) == DecodeString(S[24:]).R0"}, val: hexVal("[4:24]")},
		"HexToAddress":     addr,
		"ValidHexAddress":  addr,
	}
	for _, name := range sortedKeys(parse) {
		if f := c.Func(typesPkg, name); f != nil {
			outs := c.Paths(e, f)
			sc := parse[name]
			c.iff("from-text", name, c.success(outs, 1), c.failure(outs, 1), sc.at("A0")...)
			for _, p := range c.success(outs, 1) {
				n := p.norm()
				c.Ob(isBytes(p, p.o.res[0], sc.val(n.Path, "A0")...), "from-text", name, p.where(), "the result is %v", n.t(p.o.res[0]))
			}
			for _, o := range outs {
				c.Ob(!o.panic, "from-text", name, c.P.pos(o.pos), "parsing can panic")
			}
		}
	}
	for name, of := range map[string]string{"IsValidHexAddress": "HexToAddress", "IsValidHexTokenTypeId": "HexToTokenTypeId"} {
		if f := c.Func(typesPkg, name); f != nil {
			yes, no := c.yesno(c.Paths(e, f), 0)
			sc := parse[of]
			c.iff("from-text", name, yes, no, sc.at("A0")...)
		}
	}
	c.Floor("from-text", 20)
	// JSON and text
	for _, id := range idTypes {
		for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
			if c.P.Func(typesPkg, id.t+"."+m) == nil {
				continue
			}
			f := c.Func(typesPkg, id.t+"."+m)
			outs := c.Paths(e, f)
			sc := parse["HexTo"+id.t]
			for _, p := range c.failure(outs, 0) {
				c.Ob(!writesTo(p, "A0"), "json", id.t+"."+m, p.where(), "a refused text changes the identifier")
			}
			quoted := []string{"len(A1) >= 2", "A1[0] == 34", "A1[len(A1)-1] == 34"}
			inner := []string{"A1[1:len(A1)-1]", "Trim(A1, \"\\\"\")"}
			for _, p := range c.success(outs, 0) {
				if !hashLen(p) {
					continue
				}
				n := p.norm()
				ok := false
				for _, s := range inner {
					good := true
					for _, k := range append(append([]string{}, quoted...), sc.at(s)...) {
						good = good && condHolds(n.Path, k)
					}
					ok = ok || good && lastWrite(p, "A0", sc.val(n.Path, s))
				}
				c.Ob(ok, "json", id.t+"."+m, p.where(), "a text is accepted that is not a quoted %s, or the identifier is not set to it: %s", id.t, p.Describe())
			}
			for _, p := range c.failure(outs, 0) {
				if !hashLen(p) {
					continue
				}
				n := p.norm()
				ok := false
				for _, s := range inner {
					for _, k := range append(append([]string{}, quoted...), sc.at(s)...) {
						ok = ok || condFails(n.Path, k)
					}
				}
				c.Ob(ok, "json", id.t+"."+m, p.where(), "a well-formed text is refused: %s", p.Describe())
			}
		}
	}
	c.Floor("json", 20)

	// construction
	mkAddr := func(name string, spec ...sp) {
		f := c.Func(typesPkg, name)
		if f == nil {
			return
		}
		for _, p := range c.all(c.Paths(e, f)) {
			if !hashLen(p) {
				continue
			}
			r := p.o.res[0]
			c.Ob(isBytes(p, r, spec...), "derive", name, p.where(), "the derived identifier is %s", segString(p.segs(r)))
		}
	}
	mkAddr("PubkeyToAddress", spS("Hash(20, list(A0))"), spB("0"))
	mkAddr("CreateContractAddress", spS("Hash(20, A0)"), spB("1"))
	mkAddr("CreateTokenTypeId", spS("Hash(10, A0)"))
	mkAddr("DataToGid", spS("Hash(10, A0)"))
	mkAddr("DataHash", spS("Hash256(list(A0))"))
	mkAddr("DataListHash", spS("Hash256(A0)"))
	for n, m := range map[string]string{"GenUserAddress": "0", "GenContractAddress": "1"} {
		if f := c.Func(typesPkg, n); f != nil {
			outs := c.Paths(e, f)
			for _, p := range c.success(outs, 1) {
				c.Ob(p.Holds("len(A0) == 20") && isBytes(p, p.o.res[0], spS("A0"), spB(m)), "derive", n, p.where(), "the address is %s: %s", segString(p.segs(p.o.res[0])), p.Describe())
			}
			for _, p := range c.failure(outs, 1) {
				c.Ob(p.Holds("len(A0) != 20"), "derive", n, p.where(), "a 20-byte core is refused: %s", p.Describe())
			}
		}
	}
	c.Floor("derive", 10)
	for n, sz := range map[string]string{"BigToAddress": "21", "BigToTokenTypeId": "10", "BigToHash": "32", "BigToGid": "10"} {
		f := c.Func(typesPkg, n)
		if f == nil {
			continue
		}
		for _, p := range c.success(c.Paths(e, f), 1) {
			r := p.o.res[0]
			ok := isBytes(p, r, spS("LeftPadBytes(Bytes(A0), "+sz+")")) || leftPadded(p, r, sz)
			c.Ob(ok, "big-to-id", n, p.where(), "the identifier is %v (%s)", r, segString(p.segs(r)))
		}
	}
	c.Floor("big-to-id", 4)
	// classification
	if f := c.Func(typesPkg, "IsContractAddr"); f != nil {
		y, n := c.yesno(c.Paths(e, f), 0)
		c.iff("classify", "IsContractAddr", y, n, "A0[20] == 1")
	}
	if f := c.Func(typesPkg, "IsBuiltinContractAddr"); f != nil {
		y, n := c.yesno(c.Paths(e, f), 0)
		c.iff("classify", "IsBuiltinContractAddr", y, n, "A0[20] == 1", "AllZero(A0[:19])", "A0[19] != 0")
	}
	for _, x := range []struct{ t, z string }{{"Hash", "ZERO_HASH"}, {"Address", "ZERO_ADDRESS"}} {
		if f := c.Func(typesPkg, x.t+".IsZero"); f != nil {
			y, n := c.yesno(c.Paths(e, f), 0)
			c.iff("classify", x.t+".IsZero", y, n, "A0 == "+x.z)
		}
	}
	lists := map[string][]string{
		"BuiltinContracts":                {"AddressQuota", "AddressGovernance", "AddressAsset", "AddressDexFund", "AddressDexTrade"},
		"BuiltinContractsWithoutQuota":    {"AddressQuota", "AddressGovernance", "AddressAsset", "AddressDexTrade"},
		"BuiltinContractsWithSendConfirm": {"AddressQuota", "AddressGovernance", "AddressAsset"},
	}
	for fn, l := range map[string]string{"IsBuiltinContractAddrInUse": "BuiltinContracts", "IsBuiltinContractAddrInUseWithoutQuota": "BuiltinContractsWithoutQuota", "IsBuiltinContractAddrInUseWithSendConfirm": "BuiltinContractsWithSendConfirm"} {
		f := c.Func(typesPkg, fn)
		if f == nil {
			continue
		}
		y, n := c.yesno(c.Paths(e, f), 0)
		for _, p := range y {
			ok := p.Holds("A0 == " + l + "[_]")
			if !ok {
				ok = true
				var hit bool
				for _, a := range lists[l] {
					hit = hit || p.Holds("A0 == "+a)
				}
				ok = hit
			}
			c.Ob(ok, "classify", fn, p.where(), "accepts an address that is not in the list: %s", p.Describe())
		}
		for _, p := range n {
			ok := p.forAll(l, func(it *Path, sl seqLoop) bool {
				return it.F.possible(param(0, nil), elemOf(sl.seq, sl.idx, nil))&EQ == 0
			})
			if !ok {
				ok = true
				for _, a := range lists[l] {
					ok = ok && p.Holds("A0 != "+a)
				}
			}
			c.Ob(ok, "classify", fn, p.where(), "may refuse an address of the list: %s", p.Describe())
		}
	}
	c.Floor("classify", 10)
	for _, g := range sortedKeys(lists) {
		got, where, ok := c.globalList(typesPkg, g)
		sort.Strings(got)
		w := append([]string{}, lists[g]...)
		sort.Strings(w)
		c.Ob(ok && strings.Join(got, ",") == strings.Join(w, ","), "builtin-list", g, where, "the list holds %v", got)
	}
	for i, g := range []string{"AddressQuota", "AddressGovernance", "AddressAsset", "AddressDexFund", "AddressDexTrade"} {
		b, where, ok := c.globalBytes(typesPkg, g)
		good := ok && len(b) == 21
		for k := range b {
			want := byte(0)
			if k == 19 {
				want = byte(3 + i)
			} else if k == 20 {
				want = 1
			}
			good = good && b[k] == want
		}
		c.Ob(good, "builtin-list", g, where, "the address is %v", b)
	}
	c.Floor("builtin-list", 8)
	hashFns(c)
	helperFns(c)
}

// leftPadded: the value is A0's bytes right-aligned in sz zero bytes.
func leftPadded(p *Path, r *Term, sz string) bool {
	n := p.norm()
	r = n.t(r)
	if isT(r, "Bytes(A0)") {
		return p.Holds("len(Bytes(A0)) == " + sz)
	}
	if r.Op == "bytesw" && (r.Args[0].Op == "zerobytes" || r.Args[0].Op == "zero") {
		lo := r.Args[1]
		if r.Args[0].Op == "zero" {
			if l, ok := arrayLen(r.Args[0].Typ); !ok || fmt.Sprint(l) != sz {
				return false
			}
		} else if r.Args[0].Args[0].String() != sz {
			return false
		}
		return isT(lo, sz+" - len(Bytes(A0))") && isT(r.Args[3], "Bytes(A0)") && p.Holds("len(Bytes(A0)) < "+sz)
	}
	return false
}

type parseSpec struct {
	conds []string
	val   func(p *Path, s string) []sp
}

var reS = regexp.MustCompile(`\bS\b`)

func atS(k, s string) string { return reS.ReplaceAllLiteralString(k, s) }

func (s parseSpec) at(sub string) (out []string) {
	for _, k := range s.conds {
		if n := 0; strings.HasPrefix(sub, "A1[1:") {
			// the length of the quoted text is two more
			if m, _ := fmt.Sscanf(k, "len(S) == %d", &n); m == 1 {
				out = append(out, fmt.Sprintf("len(A1) == %d", n+2))
				continue
			}
		}
		out = append(out, atS(k, sub))
	}
	return
}

// isBytes: the value consists of exactly the given pieces.
func isBytes(p *Path, v *Term, spec ...sp) bool {
	if v.Op == "alloc" {
		v = p.o.st.load(v)
	}
	n := p.norm()
	ss := p.segs(n.t(v))
	for i := range ss {
		if ss[i].T != nil {
			ss[i].T = n.t(ss[i].T)
		}
	}
	return matchSegs(ss, spec, Bind{})
}

// fullCopy: the object behind a parameter is overwritten with all of src.
func fullCopy(p *Path, dst, src string) bool {
	for _, ev := range p.Evs {
		if (ev.Kind == "copy" || ev.Kind == "store") && isT(stripSlice(ev.Args[0]), dst) && isT(ev.Args[1], src) {
			return true
		}
	}
	return false
}

// lastWrite: the last thing written through the parameter is the given value.
func lastWrite(p *Path, dst string, spec []sp) bool {
	for i := len(p.Evs) - 1; i >= 0; i-- {
		ev := p.Evs[i]
		if (ev.Kind == "copy" || ev.Kind == "store") && isT(stripSlice(ev.Args[0]), dst) {
			return isBytes(p, ev.Args[1], spec...)
		}
	}
	return false
}

func stripSlice(t *Term) *Term {
	for t.Op == "slice" && isNilT(t.Args[1]) && isNilT(t.Args[2]) {
		t = t.Args[0]
	}
	return stripDeref(t)
}

// writesTo: something is written through the parameter.
func writesTo(p *Path, dst string) bool {
	found := false
	walkEvents(p.Evs, func(ev *Event) {
		if ev.Kind == "copy" || ev.Kind == "store" || ev.Kind == "bigset" {
			r := ev.Args[0]
			for r != nil {
				if isT(r, dst) {
					found = true
				}
				if len(r.Args) == 0 {
					break
				}
				r = r.Args[0]
			}
		}
	})
	return found
}

// textOf: r is the text of identifier v.
func textOf(p *Path, typ, v string, r *Term) bool {
	hx := "EncodeToString("
	switch typ {
	case "Hash", "Gid":
		return isT(r, hx+v+")")
	case "TokenTypeId":
		return isCat(r, `"tti_"`, hx+v+")", hx+"Hash(2, list("+v+")))")
	case "Address":
		core := v + "[:20]"
		switch {
		case p.Holds(v + "[20] == 0"):
			return isCat(r, `"vite_"`, hx+core+")", hx+"Hash(5, list("+core+")))")
		case p.Holds(v + "[20] == 1"):
			return isCat(r, `"vite_"`, hx+core+")", hx+"LDI(Hash(5, list("+core+"))))")
		}
		return p.Holds(v+"[20] != 0") && p.Holds(v+"[20] != 1")
	}
	return false
}

// isCat: string concatenation of the given parts.
func isCat(t *Term, parts ...string) bool {
	var fl []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		t = stripConvB(t)
		if t.Op == "bin" && t.Sym == "+" {
			walk(t.Args[0])
			walk(t.Args[1])
			return
		}
		fl = append(fl, t)
	}
	walk(t)
	if len(fl) != len(parts) {
		return false
	}
	for i := range fl {
		if !isT(fl[i], parts[i]) {
			return false
		}
	}
	return true
}

// globalList: names of the globals that initialise a global slice.
func (c *Ctx) globalList(rel, name string) (out []string, where string, ok bool) {
	v, where := c.globalInit(rel, name)
	sl, isS := v.(*ssa.Slice)
	if !isS {
		return nil, where, false
	}
	al, isA := sl.X.(*ssa.Alloc)
	if !isA {
		return nil, where, false
	}
	for _, r := range *al.Referrers() {
		ia, isI := r.(*ssa.IndexAddr)
		if !isI {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, isSt := q.(*ssa.Store); isSt {
				u, isU := st.Val.(*ssa.UnOp)
				if !isU || u.Op != token.MUL {
					return nil, where, false
				}
				g, isG := u.X.(*ssa.Global)
				if !isG {
					return nil, where, false
				}
				out = append(out, g.Name())
			}
		}
	}
	return out, where, true
}

// globalInit: the only value stored in a package variable.
func (c *Ctx) globalInit(rel, name string) (ssa.Value, string) {
	pk := c.P.SPkg[rel]
	if pk == nil {
		return nil, rel
	}
	g, _ := pk.Members[name].(*ssa.Global)
	if g == nil {
		return nil, rel
	}
	var val ssa.Value
	n := 0
	for _, m := range c.pkgFns(pk) {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					val = st.Val
					n++
				}
			}
		}
	}
	if n != 1 {
		return nil, c.P.pos(g.Pos())
	}
	return val, c.P.pos(g.Pos())
}

// globalBytes: the constant bytes given to BytesToX in the initializer.
func (c *Ctx) globalBytes(rel, name string) ([]byte, string, bool) {
	v, where := c.globalInit(rel, name)
	ex, ok := v.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return nil, where, false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(call.Call.StaticCallee().Name(), "BytesTo") {
		return nil, where, false
	}
	sl, ok := call.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil, where, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, where, false
	}
	n, _ := arrayLen(pointee(al.Type()))
	out := make([]byte, n)
	for _, r := range *al.Referrers() {
		ia, isI := r.(*ssa.IndexAddr)
		if !isI {
			continue
		}
		ix, isC := ia.Index.(*ssa.Const)
		if !isC {
			return nil, where, false
		}
		for _, q := range *ia.Referrers() {
			if st, isSt := q.(*ssa.Store); isSt {
				k, isK := st.Val.(*ssa.Const)
				if !isK {
					return nil, where, false
				}
				u, _ := constant.Uint64Val(k.Value)
				out[ix.Int64()] = byte(u)
			}
		}
	}
	return out, where, true
}

// hashFns: every piece given to a hash function is hashed, in order.
func hashFns(c *Ctx) {
	for _, h := range []struct{ name, arg, mk string }{{"Hash256", "A0", "New256(nil).R0"}, {"Hash512", "A0", "New512(nil).R0"}, {"Keccak256", "A0", "NewLegacyKeccak256()"}, {"Hash", "A1", "New(A0, nil).R0"}} {
		f := c.Func("crypto", h.name)
		if f == nil {
			continue
		}
		for _, p := range c.all(c.Paths(c.Opts([]string{"crypto"}), f)) {
			b, ok := matchT(pat("Sum(X, nil)"), p.o.res[0], Bind{})
			ok = ok && isT(b["X"], h.mk) && p.forAll(h.arg, func(it *Path, l seqLoop) bool {
				for _, ev := range it.Evs {
					if ev.Kind == "call" && baseName(ev.Name) == "Write" && ev.Args[0] == b["X"] && ev.Args[1] == elemOf(l.seq, l.idx, nil) {
						return true
					}
				}
				return false
			})
			c.Ob(ok, "hash-fn", "crypto."+h.name, p.where(), "not every piece is hashed once and in order: %v", p.o.res[0])
		}
	}
	c.Floor("hash-fn", 4)
}

func (c *Ctx) pkgFns(pk *ssa.Package) []*ssa.Function {
	out := []*ssa.Function{}
	if f := pk.Func("init"); f != nil {
		out = append(out, f)
	}
	for _, f := range c.P.Fns {
		if f.Pkg == pk && f.Name() != "init" {
			out = append(out, f)
		}
	}
	return out
}

// helperFns: padding, complement and zero test.
func helperFns(c *Ctx) {
	const rel = "common/helper"
	e := func() *Engine { return c.Opts([]string{rel}) }
	for n, lo := range map[string]string{"LeftPadBytes": "A1 - len(A0)", "RightPadBytes": "0"} {
		f := c.Func(rel, n)
		if f == nil {
			continue
		}
		for _, p := range c.all(c.Paths(e(), f)) {
			r := p.o.st.bytesVal(p.o.res[0])
			ok := isT(r, "A0") && (p.Holds("len(A0) >= A1") || p.Holds("A1 <= len(A0)"))
			if r.Op == "bytesw" && r.Args[0].Op == "zerobytes" {
				ok = isT(r.Args[0].Args[0], "A1") && isT(orZero(r.Args[1]), lo) && isT(r.Args[3], "A0") && p.Holds("len(A0) <= A1")
			}
			c.Ob(ok, "padding", n, p.where(), "the padded value is %v: %s", r, p.Describe())
		}
	}
	c.Floor("padding", 4)
	if f := c.Func(rel, "LDI"); f != nil {
		for _, p := range c.all(c.Paths(e(), f)) {
			ss := p.segs(p.o.res[0])
			c.Ob(matchSegs(ss, []sp{spEach("A0", spB("^A0[I]"))}, Bind{}) || matchSegs(ss, []sp{spEach("A0", spB("A0[I] ^ 255"))}, Bind{}), "complement", "LDI", p.where(), "the complement is %s", segString(ss))
		}
		c.Floor("complement", 1)
	}
	if f := c.Func(rel, "AllZero"); f != nil {
		y, n := c.yesno(c.Paths(e(), f), 0)
		for _, p := range y {
			c.Ob(p.forAll("A0", func(it *Path, l seqLoop) bool {
				return it.F.possible(elemOf(l.seq, l.idx, nil), kInt(0)) == EQ
			}), "all-zero", "AllZero", p.where(), "true is returned without all bytes being zero: %s", p.Describe())
		}
		for _, p := range n {
			c.Ob(p.Holds("A0[_] != 0"), "all-zero", "AllZero", p.where(), "false is returned although all bytes may be zero: %s", p.Describe())
		}
		c.Floor("all-zero", 2)
	}
}
