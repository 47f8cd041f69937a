package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func unq(s string) (string, error) { return strconv.Unquote(s) }

// big returns the value term of a *big.Int pointer.
func (s *State) big(p *Term) *Term {
	if v, ok := s.mem[mk("bigc", "", nil, p)]; ok {
		return v
	}
	if p.Op == "alloc" {
		if v, ok := s.mem[p]; ok {
			return v
		}
		return kInt(0)
	}
	if p.Op == "global" {
		if v, ok := globalBig[p.Sym]; ok {
			return v
		}
	}
	if p.Op == "call" && strings.Contains(p.Sym, "IntPool.GetZero#") {
		return kInt(0) // decided for IntPool.GetZero itself by C07
	}
	return p
}

func (s *State) setBig(p, v *Term) { s.setMem(mk("bigc", "", nil, p), v) }

func bigTok(n string) (token.Token, bool) {
	switch n {
	case "Add":
		return token.ADD, true
	case "Sub":
		return token.SUB, true
	case "Mul":
		return token.MUL, true
	case "And":
		return token.AND, true
	case "Or":
		return token.OR, true
	case "Xor":
		return token.XOR, true
	}
	return 0, false
}

func (e *Engine) intrinsic(s *State, name string, callee *ssa.Function, args []*Term, c *ssa.CallCommon, site ssa.Instruction) ([]*Term, bool) {
	if callee == nil {
		return nil, false
	}
	if inRepo(callee) {
		return nil, false
	}
	rt := types.Type(nil)
	if c.Signature().Results().Len() == 1 {
		rt = c.Signature().Results().At(0).Type()
	}
	pk := extPkg(callee)
	switch pk {
	case "math/big":
		if name == "big.NewInt" {
			t := mk("alloc", "NewInt@"+siteID(site)+"/"+itoa(args[0].ID)+"/"+itoa(lenEv(s)), rt)
			s.setMem(mk("allocd", "", nil, t), kBool(true))
			s.setBig(t, args[0])
			return []*Term{t}, true
		}
		if !strings.HasPrefix(name, "big.Int.") {
			return nil, false
		}
		n := callee.Name()
		z := args[0]
		if op, ok := bigTok(n); ok {
			s.bigStore(z, mkBin(op, s.big(args[1]), s.big(args[2]), nil), site)
			return []*Term{z}, true
		}
		switch n {
		case "Quo", "Div", "Mod", "Rem", "AndNot", "Exp", "ModInverse", "GCD", "MulRange", "Binomial":
			var as []*Term
			for _, a := range args[1:] {
				if isBigPtr(a.Typ) {
					as = append(as, s.big(a))
				} else {
					as = append(as, a)
				}
			}
			s.bigStore(z, mk("big", n, nil, as...), site)
			return []*Term{z}, true
		case "Lsh", "Rsh", "SetBit":
			as := []*Term{s.big(args[1]), args[2]}
			if len(args) > 3 {
				as = append(as, args[3])
			}
			s.bigStore(z, mk("big", n, nil, as...), site)
			return []*Term{z}, true
		case "Neg", "Abs", "Not", "Sqrt":
			if n == "Neg" {
				s.bigStore(z, mkBin(token.SUB, kInt(0), s.big(args[1]), nil), site)
			} else {
				s.bigStore(z, mk("big", n, nil, s.big(args[1])), site)
			}
			return []*Term{z}, true
		case "Set":
			s.bigStore(z, s.big(args[1]), site)
			return []*Term{z}, true
		case "SetUint64", "SetInt64":
			s.bigStore(z, stripConv(args[1]), site)
			return []*Term{z}, true
		case "SetBytes":
			s.bigStore(z, mk("big", "SetBytes", nil, s.bytesVal(args[1])), site)
			return []*Term{z}, true
		case "DivMod", "QuoRem":
			a, b := s.big(args[1]), s.big(args[2])
			q, m := "Div", "Mod"
			if n == "QuoRem" {
				q, m = "Quo", "Rem"
			}
			s.bigStore(z, mk("big", q, nil, a, b), site)
			s.bigStore(args[3], mk("big", m, nil, a, b), site)
			return []*Term{z, args[3]}, true
		case "Cmp":
			return []*Term{mk("cmp3", "", rt, s.big(args[0]), s.big(args[1]))}, true
		case "CmpAbs":
			return []*Term{mk("cmp3", "", rt, mk("big", "Abs", nil, s.big(args[0])), mk("big", "Abs", nil, s.big(args[1])))}, true
		case "Sign":
			return []*Term{mk("cmp3", "", rt, s.big(args[0]), kInt(0))}, true
		case "Uint64", "Int64":
			v := s.big(args[0])
			return []*Term{mk("conv", strings.ToLower(n), rt, v)}, true
		case "BitLen", "IsUint64", "IsInt64", "Bytes", "Bit", "String", "Bits", "Text", "TrailingZeroBits", "ProbablyPrime":
			as := []*Term{s.big(args[0])}
			as = append(as, args[1:]...)
			return []*Term{mk("pcall", name, rt, as...)}, true
		case "SetString":
			s.bigStore(z, mk("big", "SetString", nil, args[1], args[2]), site)
			return []*Term{mk("pcall", "big.SetString", rt, args[1], args[2]), mk("pcall", "big.SetStringOk", types.Typ[types.Bool], args[1], args[2])}, true
		}
		return nil, false
	case "bytes":
		switch callee.Name() {
		case "Clone":
			return []*Term{mk("append", "", rt, kNil(), mk("spread", "", rt, s.bytesVal(args[0])))}, true
		case "Equal":
			return []*Term{mkCmp(s.bytesVal(args[0]), s.bytesVal(args[1]), EQ)}, true
		case "Compare":
			return []*Term{mk("cmp3", "", rt, s.bytesVal(args[0]), s.bytesVal(args[1]))}, true
		}
	case "strings":
		if callee.Name() == "Compare" {
			return []*Term{mk("cmp3", "", rt, args[0], args[1])}, true
		}
	case "time":
		switch name {
		case "time.Time.Before":
			return []*Term{mkCmp(tval(args[0]), tval(args[1]), LT)}, true
		case "time.Time.After":
			return []*Term{mkCmp(tval(args[0]), tval(args[1]), GT)}, true
		case "time.Time.Equal":
			return []*Term{mkCmp(tval(args[0]), tval(args[1]), EQ)}, true
		case "time.Time.Add":
			return []*Term{mkBin(token.ADD, tval(args[0]), args[1], nil)}, true
		case "time.Time.Unix", "time.Time.UnixNano":
			return []*Term{mk("pcall", name, rt, tval(args[0]))}, true
		}
	case "encoding/binary":
		n := callee.Name()
		en := "be"
		if strings.Contains(name, "ittleEndian") {
			en = "le"
		}
		recv := 0
		if callee.Signature.Recv() != nil {
			recv = 1
		}
		switch n {
		case "PutUint64", "PutUint32", "PutUint16":
			w := map[string]int64{"PutUint64": 8, "PutUint32": 4, "PutUint16": 2}[n]
			src := mk(en+itoa(int(w*8)), "", nil, stripConv(args[recv+1]))
			s.push(&Event{Kind: "copy", Args: []*Term{args[recv], src}, Pos: site.Pos(), In: site.Parent(), Site: site, St: s.snap()})
			s.writeBytes(args[recv], src, kInt(w))
			return nil, true
		case "AppendUint64", "AppendUint32", "AppendUint16":
			w := map[string]int64{"AppendUint64": 8, "AppendUint32": 4, "AppendUint16": 2}[n]
			src := mk("spread", "", nil, mk(en+itoa(int(w*8)), "", nil, stripConv(args[recv+1])))
			base := args[recv]
			all := []*Term{base}
			if base.Op == "append" {
				all = append([]*Term{}, base.Args...)
			}
			t := mk("append", "", rt, append(all, src)...)
			s.push(&Event{Kind: "append", Args: []*Term{base, src}, Res: t, Pos: site.Pos(), In: site.Parent(), Site: site})
			return []*Term{t}, true
		case "Uint64", "Uint32", "Uint16":
			w := map[string]int64{"Uint64": 8, "Uint32": 4, "Uint16": 2}[n]
			b := s.bytesVal(args[recv])
			if b.Op == en+itoa(int(w*8)) {
				return []*Term{b.Args[0]}, true
			}
			if b.Op == "sub" {
				// only the first bytes are read
				lo := int64(0)
				if x, ok := i64(b.Args[1]); ok {
					lo = x
				} else if !isNilT(b.Args[1]) {
					lo = -1
				}
				if hi, ok := i64(b.Args[2]); ok && lo >= 0 && hi-lo >= w {
					if lo == 0 {
						b = b.Args[0]
					} else {
						b = mk("sub", "", b.Typ, b.Args[0], b.Args[1], kNil())
					}
				}
			}
			return []*Term{mk("rd"+en+itoa(int(w*8)), "", rt, b)}, true
		}
	case "encoding/hex":
		if callee.Name() == "Decode" {
			src := stripConvB(args[1])
			r := mk("pcall", "hex.DecodeString", nil, src)
			s.push(&Event{Kind: "copy", Args: []*Term{args[0], ext(r, 0)}, Pos: site.Pos(), In: site.Parent(), Site: site, St: s.snap()})
			s.writeBytes(args[0], ext(r, 0), mkBin(token.QUO, s.lenOf(src, "len", types.Typ[types.Int]), kInt(2), types.Typ[types.Int]))
			return []*Term{mk("pcall", "hex.Decode.n", types.Typ[types.Int], src), ext(r, 1)}, true
		}
	case "errors":
		if callee.Name() == "New" {
			return []*Term{mk("nnerr", "", rt, args[0])}, true
		}
	case "github.com/pkg/errors":
		switch callee.Name() {
		case "New", "Errorf":
			return []*Term{mk("nnerr", "", rt, args[0])}, true
		}
	case "fmt":
		if callee.Name() == "Errorf" {
			return []*Term{mk("nnerr", "", rt, args[0])}, true
		}
	}
	return nil, false
}

func tval(t *Term) *Term { return t }

func lenEv(s *State) int {
	if s.ev == nil {
		return 0
	}
	return s.ev.n
}

func (s *State) bigStore(p, v *Term, site ssa.Instruction) {
	if !localObj(p) {
		s.push(&Event{Kind: "bigset", Args: []*Term{p, v}, Pos: site.Pos(), In: site.Parent(), Site: site})
	}
	s.setBig(p, v)
}
