package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// Specification of the instructions. S0 is the top of the stack, S1 the next
// entry; a case is "condition => result" (results bottom to top separated by
// "|"), the cases are alternatives. U(x) is x modulo 2^256, N(i) the signed
// reading of Si when negative.
var opSpec = map[string][]string{
	"STOP":   {"=>"},
	"ADD":    {"=> U(S0 + S1)"},
	"MUL":    {"=> U(S0 * S1)"},
	"SUB":    {"=> U(S0 - S1)"},
	"DIV":    {"S1 != 0 => U(Div(S0, S1))", "S1 != 0 => Div(S0, S1)", "S1 == 0 => 0"},
	"MOD":    {"S1 != 0 => U(Mod(S0, S1))", "S1 != 0 => Mod(S0, S1)", "S1 == 0 => 0"},
	"SDIV":   nil, // generated
	"SMOD":   nil,
	"ADDMOD": {"S2 > 0 => U(Mod(S0 + S1, S2))", "S2 > 0 => Mod(S0 + S1, S2)", "S2 <= 0 => 0"},
	"MULMOD": {"S2 > 0 => U(Mod(S0 * S1, S2))", "S2 > 0 => Mod(S0 * S1, S2)", "S2 <= 0 => 0"},
	"EXP":    {"=> Exp(S0, S1)", "=> U(Exp(S0, S1))"},
	"SIGNEXTEND": {"S0 >= 31 => S1",
		"S0 < 31 && Bit(S1, 8*S0 + 7) > 0 => U(S1 | Not(Lsh(1, 8*S0 + 7) - 1))",
		"S0 < 31 && Bit(S1, 8*S0 + 7) <= 0 => U(S1 & (Lsh(1, 8*S0 + 7) - 1))"},
	"LT":     {"S0 < S1 => 1", "S0 >= S1 => 0"},
	"GT":     {"S0 > S1 => 1", "S0 <= S1 => 0"},
	"SLT":    {"S0 >= T255 && S1 < T255 => 1", "S0 < T255 && S1 >= T255 => 0", "S0 >= T255 && S1 >= T255 && S0 < S1 => 1", "S0 < T255 && S1 < T255 && S0 < S1 => 1", "S0 >= T255 && S1 >= T255 && S0 >= S1 => 0", "S0 < T255 && S1 < T255 && S0 >= S1 => 0"},
	"SGT":    {"S0 >= T255 && S1 < T255 => 0", "S0 < T255 && S1 >= T255 => 1", "S0 >= T255 && S1 >= T255 && S0 > S1 => 1", "S0 < T255 && S1 < T255 && S0 > S1 => 1", "S0 >= T255 && S1 >= T255 && S0 <= S1 => 0", "S0 < T255 && S1 < T255 && S0 <= S1 => 0"},
	"EQ":     {"S0 == S1 => 1", "S0 != S1 => 0"},
	"ISZERO": {"S0 > 0 => 0", "S0 != 0 => 0", "S0 <= 0 => 1", "S0 == 0 => 1"},
	"AND":    {"=> S0 & S1"},
	"OR":     {"=> S0 | S1"},
	"XOR":    {"=> S0 ^ S1"},
	"NOT":    {"=> U(Not(S0))"},
	"BYTE":   {"S0 < 32 => helper.Byte(S1, 32, S0)", "S0 >= 32 => 0"},
	"SHL":    {"M0 < 256 => U(Lsh(M1, M0))", "M0 >= 256 => 0"},
	"SHR":    {"M0 < 256 => U(Rsh(M1, M0))", "M0 < 256 => Rsh(M1, M0)", "M0 >= 256 => 0"},
	"SAR": {"M0 < 256 && S1 < T255 => U(Rsh(S1, M0))", "M0 < 256 && S1 >= T255 => U(Rsh(S1 - T256, M0))",
		"M0 >= 256 && S1 < T255 && S1 > 0 => 0", "M0 >= 256 && S1 == 0 => 0", "M0 >= 256 && S1 >= T255 => T256M1"},
	"SHA3":           {"=> SetBytes(Keccak256(list(memory.get(A3, S0, S1))))"},
	"BLAKE2B":        {"=> SetBytes(Hash256(list(memory.get(A3, S0, S1))))"},
	"ADDRESS":        {"=> SetBytes(A2.block.AccountAddress)"},
	"BALANCE":        {"=> GetBalance(A2.db, _)"},
	"CALLER":         {"=> SetBytes(A2.sendBlock.AccountAddress)"},
	"CALLVALUE":      {"=> A2.sendBlock.Amount"},
	"CALLDATALOAD":   {"=> SetBytes(GetDataBig(A2.data, S0, 32))"},
	"CALLDATASIZE":   {"=> len(A2.data)"},
	"CALLDATACOPY":   {"=>"},
	"CODESIZE":       {"=> len(A2.code)"},
	"CODECOPY":       {"=>"},
	"EXTCODESIZE":    {"=> len(GetContractCode(A2.db, _, A1.globalStatus).R1)"},
	"EXTCODECOPY":    {"=>"},
	"RETURNDATASIZE": {"=> len(A2.returnData)"},
	"RETURNDATACOPY": {"BitLen(S1 + S2) <= 64 && len(A2.returnData) >= S1 + S2 =>"},
	"TIMESTAMP":      {"=> U(Time.Unix(*SnapshotBlock(A1.globalStatus).Timestamp))"},
	"HEIGHT":         {"=> U(SnapshotBlock(A1.globalStatus).Height)"},
	"TOKENID":        {"=> SetBytes(A2.sendBlock.TokenId)"},
	"ACCOUNTHEIGHT":  {"PrevAccountBlock(A2.db).R0 != nil => U(PrevAccountBlock(A2.db).Height)", "PrevAccountBlock(A2.db).R0 == nil => 0"},
	"PREVHASH":       {"PrevAccountBlock(A2.db).R0 != nil => SetBytes(PrevAccountBlock(A2.db).Hash)", "PrevAccountBlock(A2.db).R0 == nil => 0"},
	"FROMHASH":       {"=> SetBytes(A2.block.FromBlockHash)"},
	"SEED":           {"=> Seed(A1.globalStatus)"},
	"RANDOM":         {"=> Random(A1.globalStatus)"},
	"POP":            {"=>"},
	"MLOAD":          {"=> SetBytes(memory.get(A3, S0, 32))"},
	"MSTORE":         {"=>"},
	"MSTORE8":        {"=>"},
	"SLOAD":          {"=> SetBytes(GetValue(A2.db, BigToHash(S0)))"},
	"SSTORE":         {"=>"},
	"JUMP":           {"destinations.has(A2.jumpdests, A2.codeAddr, A2.code, S0) =>"},
	"JUMPI":          {"S1 != 0 && destinations.has(A2.jumpdests, A2.codeAddr, A2.code, S0) =>", "S1 == 0 =>"},
	"PC":             {"=> *A0"},
	"MSIZE":          {"=> memory.len(A3)"},
	"JUMPDEST":       {"=>"},
	"DELEGATECALL":   {"VM.delegateCall(A1, BigToAddress(S0), memory.get(A3, S1, S2), A2).R1 == nil => 1", "VM.delegateCall(A1, BigToAddress(S0), memory.get(A3, S1, S2), A2).R1 != nil => 0"},
	"CALL":           {"=>"},
	"CALL2":          {"=> SetBytes(ComputeSendBlockHash(A2.block, _, _))"},
	"RETURN":         {"=>"},
	"REVERT":         {"=>"},
}

// off-chain variants: instructions that need the block or would write are
// neutral there.
var offSpec = map[string][]string{
	"CALLER": {"=> 0"}, "CALLVALUE": {"=> 0"}, "TIMESTAMP": {"=> 0"}, "HEIGHT": {"=> 0"}, "TOKENID": {"=> 0"},
	"FROMHASH": {"=> 0"}, "SEED": {"=> 0"}, "RANDOM": {"=> 0"}, "CALL2": {"=> 0"},
}

// effects: the events an instruction must perform, in the order given. Other
// effects are not allowed.
var opEffects = map[string][]string{
	"CALLDATACOPY":   {"memory.set(A3, S0, S2, GetDataBig(A2.data, S1, S2))"},
	"CODECOPY":       {"memory.set(A3, S0, S2, GetDataBig(A2.code, S1, S2))"},
	"EXTCODECOPY":    {"memory.set(A3, S1, S3, GetDataBig(GetContractCode(A2.db, _, A1.globalStatus).R1, S2, S3))"},
	"RETURNDATACOPY": {"memory.set(A3, S0, S2, sub(A2.returnData, S1, S1 + S2))"},
	"MSTORE":         {"memory.set32(A3, S0, S1)"},
	"SSTORE":         {"util.SetValue(A2.db, BigToHash(S0), Int.Bytes(S1))"},
	"CALL":           {"MakeRequestBlock(A2.block.AccountAddress, BigToAddress(S0), 2, S2, BigToTokenTypeId(S1), memory.get(A3, S3, S4))"},
	"CALL2":          {"MakeRequestBlock(A2.block.AccountAddress, BigToAddress(S0), 2, S2, BigToTokenTypeId(S1), memory.get(A3, S3, S4))"},
	"DELEGATECALL":   {"VM.delegateCall(A1, BigToAddress(S0), memory.get(A3, S1, S2), A2)", "?memory.set(A3, S3, S4, _)"},
}

var effectNames = regexp.MustCompile(`(^|\.)(memory\.(set|set32|resize)|SetValue|SetBalance|SubBalance|AddBalance|AddLog|AppendBlock|delegateCall|MakeRequestBlock|SetContract\w*|Reset|SetCallDepth|AddUnsavedStorage)$`)

var macro = regexp.MustCompile(`\b([SMN])(\d)\b`)

const (
	cT255   = "57896044618658097711785492504343953926634992332820282019728792003956564819968"
	cT256   = "115792089237316195423570985008687907853269984665640564039457584007913129639936"
	cT256m1 = "115792089237316195423570985008687907853269984665640564039457584007913129639935"
)

// expandSpec turns the macros into patterns; M is read both as Si and U(Si).
func expandSpec(s string, masked bool) string {
	// U(x)
	for {
		i := strings.Index(s, "U(")
		if i < 0 || i > 0 && isIdentByte(s[i-1]) {
			break
		}
		d, j := 0, i+1
		for ; j < len(s); j++ {
			if s[j] == '(' {
				d++
			}
			if s[j] == ')' {
				d--
				if d == 0 {
					break
				}
			}
		}
		s = s[:i] + "(" + cT256m1 + " & (" + s[i+2:j] + "))" + s[j+1:]
	}
	s = strings.ReplaceAll(s, "T256M1", cT256m1)
	s = strings.ReplaceAll(s, "T255", cT255)
	s = strings.ReplaceAll(s, "T256", cT256)
	return macro.ReplaceAllStringFunc(s, func(m string) string {
		var n int
		fmt.Sscanf(m[1:], "%d", &n)
		e := fmt.Sprintf("A4.data[len(A4.data)-%d]", n+1)
		switch m[0] {
		case 'M':
			if masked {
				return "(" + cT256m1 + " & " + e + ")"
			}
		case 'N':
			return "(" + e + " - " + cT256 + ")"
		}
		return e
	})
}

func isIdentByte(b byte) bool {
	return b == '_' || b == '.' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

type opCase struct {
	cond []string
	res  []string
}

func parseCases(l []string) []opCase {
	var out []opCase
	for _, s := range l {
		for _, masked := range []bool{false, true} {
			if masked && !regexp.MustCompile(`\bM\d\b`).MatchString(s) {
				continue
			}
			x := expandSpec(s, masked)
			i := strings.Index(x, "=>")
			var cs opCase
			for _, k := range strings.Split(x[:i], "&&") {
				if k = strings.TrimSpace(k); k != "" {
					cs.cond = append(cs.cond, k)
				}
			}
			if r := strings.TrimSpace(x[i+2:]); r != "" {
				for _, k := range strings.Split(r, "$") {
					cs.res = append(cs.res, strings.TrimSpace(k))
				}
			}
			out = append(out, cs)
		}
	}
	return out
}

func signedCases(mod bool) []string {
	var out []string
	for _, xn := range []bool{false, true} {
		for _, yn := range []bool{false, true} {
			x, y, cx, cy := "S0", "S1", "S0 < T255", "S1 < T255"
			if xn {
				x, cx = "N0", "S0 >= T255"
			}
			if yn {
				y, cy = "N1", "S1 >= T255"
			}
			base := cx + " && " + cy + " && "
			zero := func(v string, neg bool, s string) string {
				if neg {
					return s + " == T256"
				}
				return s + " == 0"
			}
			out = append(out, base+zero(y, yn, "S1")+" => 0")
			if !mod {
				out = append(out, base+zero(x, xn, "S0")+" => 0")
				out = append(out, base+"cmp3("+x+", 0) == cmp3("+y+", 0) => U(Div(Abs("+x+"), Abs("+y+")))")
				out = append(out, base+"cmp3("+x+", 0) != cmp3("+y+", 0) => U(0 - Div(Abs("+x+"), Abs("+y+")))")
			} else {
				neg, pos := "S0 < 0", "S0 >= 0"
				if xn {
					neg, pos = cx, "S0 < 0"
				}
				out = append(out, base+neg+" => U(0 - Mod(Abs("+x+"), Abs("+y+")))")
				out = append(out, base+pos+" => U(Mod(Abs("+x+"), Abs("+y+")))")
			}
		}
	}
	return out
}

func specOf(op *vmOp) (cases []opCase, effects []string, ok bool) {
	var n int
	has := func(p string) bool {
		if !strings.HasPrefix(op.name, p) {
			return false
		}
		_, err := fmt.Sscanf(op.name[len(p):], "%d", &n)
		return err == nil
	}
	switch {
	case op.name == "SDIV":
		return parseCases(signedCases(false)), nil, true
	case op.name == "SMOD":
		return parseCases(signedCases(true)), nil, true
	case has("DUP"):
		return parseCases([]string{fmt.Sprintf("=> A4.data[len(A4.data)-%d]", n)}), nil, true
	case has("SWAP"):
		res := []string{"S0"}
		for d := n; d >= 2; d-- {
			res = append(res, fmt.Sprintf("A4.data[len(A4.data)-%d]", d))
		}
		res = append(res, fmt.Sprintf("A4.data[len(A4.data)-%d]", n+1))
		return parseCases([]string{"=> " + strings.Join(res, " $ ")}), nil, true
	case has("PUSH"):
		return parseCases([]string{
			fmt.Sprintf("len(A2.code) >= *A0 + 1 && len(A2.code) >= *A0 + 1 + %d => SetBytes(RightPadBytes(sub(A2.code, *A0 + 1, *A0 + 1 + %d), %d))", n, n, n),
			fmt.Sprintf("len(A2.code) >= *A0 + 1 && len(A2.code) < *A0 + 1 + %d => SetBytes(RightPadBytes(sub(A2.code, *A0 + 1, len(A2.code)), %d))", n, n),
			fmt.Sprintf("len(A2.code) >= *A0 + 1 && len(A2.code) >= int(*A0 + 1) + %d => SetBytes(RightPadBytes(sub(A2.code, *A0 + 1, int(*A0 + 1) + %d), %d))", n, n, n),
			fmt.Sprintf("len(A2.code) >= *A0 + 1 && len(A2.code) < int(*A0 + 1) + %d => SetBytes(RightPadBytes(sub(A2.code, *A0 + 1, len(A2.code)), %d))", n, n),
			fmt.Sprintf("len(A2.code) < *A0 + 1 => SetBytes(RightPadBytes(sub(A2.code, len(A2.code), len(A2.code)), %d))", n),
		}), nil, true
	case has("LOG"):
		if op.off {
			return parseCases([]string{"=>"}), nil, true
		}
		return parseCases([]string{"=>"}), []string{"AddLog(A2.db, X)"}, true
	}
	if op.off {
		if l, ok := offSpec[op.name]; ok {
			return parseCases(l), nil, true
		}
		switch op.name {
		case "SSTORE", "CALL":
			return parseCases([]string{"=>"}), nil, true
		}
	}
	l, found := opSpec[op.name]
	if !found {
		return nil, nil, false
	}
	for _, e := range opEffects[op.name] {
		effects = append(effects, expandSpec(e, false))
	}
	return parseCases(l), effects, true
}

// resultWindow lists the entries that replace the ones the instruction works on.
func resultWindow(o Outcome, data *Term, k int64, pushed []*Term, n int) []*Term {
	var out []*Term
	lenT := mk("len", "", types.Typ[types.Int], data)
	for i := len(pushed); i < n; i++ {
		d := k + int64(n-i)
		idx := mkBin(token.SUB, lenT, kInt(d), types.Typ[types.Int])
		// element of the surviving part, possibly overwritten
		out = append(out, elemNow(o, data, idx))
	}
	for i, x := range pushed {
		if len(pushed)-i <= n {
			out = append(out, x)
		}
	}
	return out
}

func elemNow(o Outcome, data, idx *Term) *Term {
	for _, base := range []*Term{data, mkFA(data.Args[0], "data", nil2)} {
		if v, ok := o.st.mem[mk("ia", "", nil, base, idx)]; ok {
			return v
		}
	}
	return mk("elem", "", nil, data, idx)
}

func outOfWord(p *Path) bool {
	for i := 0; i < 3; i++ {
		for _, f := range []string{"S%d >= T256", "N%d >= 0", "N%d > 0", "N%d == 0", "S%d > T256", "S%d == T256", "S%d < 0"} {
			if p.Holds(expandSpec(fmt.Sprintf(f, i), false)) {
				return true
			}
		}
	}
	return false
}

func runC07(c *Ctx) {
	ops := vmTables(c)
	zf := c.Func("vm/util", "IntPool.GetZero")
	for _, p := range c.all(c.Paths(c.Opts([]string{"vm/util"}), zf)) {
		v := p.o.st.big(p.o.res[0])
		c.Ob(v == kInt(0), "zero", "IntPool.GetZero", p.where(), "the pooled zero is %v", v)
	}
	for _, op := range ops {
		name := op.String()
		if op.exec == nil || isNilT(op.exec) {
			continue
		}
		cases, effects, ok := specOf(op)
		if !c.Ob(ok, "documented", name, "", "instruction without a documented function") {
			continue
		}
		outs, err := runPart(c, op, op.exec)
		if err != nil {
			c.Undecided("result", name, err)
			continue
		}
		data, _ := stackParamOf(op.exec)
		for _, p := range c.success(outs, 1) {
			if outOfWord(p) {
				continue // stack entries are words: 0 <= x < 2^256
			}
			o := p.o
			cur := o.st.load(mkFA(data.Args[0], "data", nil2))
			k, pushed, ok := finalStack(cur, data)
			if !c.Ob(ok, "result", name, p.where(), "the resulting stack is not derived from the given one") {
				continue
			}
			match := false
			var got string
			for _, cs := range cases {
				okc := true
				for _, x := range cs.cond {
					if !p.Holds(x) {
						okc = false
						break
					}
				}
				if !okc {
					continue
				}
				win := resultWindow(o, data, k, pushed, len(cs.res))
				good := true
				got = ""
				for i, r := range cs.res {
					v := o.st.big(win[i])
					got += " " + v.String()
					if _, ok := matchT(pat(r), v, Bind{}); !ok {
						// the object itself (dup/swap)
						if _, ok := matchT(pat(r), win[i], Bind{}); !ok || v != win[i] {
							good = false
						}
					}
				}
				if good {
					match = true
					break
				}
			}
			if got == "" && len(pushed) > 0 {
				got = o.st.big(pushed[0]).String()
			}
			c.Ob(match, "result", semConstruct(op, p), p.where(), "the result%s is not the documented one: %s", got, p.Describe())
			semEffects(c, op, p, data, k, pushed, effects)
		}
	}
	c.Floor("result", 700)
	c.Floor("effect", 700)
}

// semConstruct names the one recorded deviation precisely.
func semConstruct(op *vmOp, p *Path) string {
	if op.name == "SAR" && p.Holds(expandSpec("S1 <= 0", false)) && (p.Holds(expandSpec("M0 >= 256", true)) || p.Holds(expandSpec("M0 >= 256", false))) {
		return op.String() + " of zero by 256 or more"
	}
	return op.String()
}

// semEffects: the documented effects happen with the documented operands and
// nothing else happens.
func semEffects(c *Ctx, op *vmOp, p *Path, data *Term, k int64, pushed []*Term, effects []string) {
	name := op.String()
	i := 0
	var logObj *Term
	walkEvents(p.Evs, func(ev *Event) {
		switch ev.Kind {
		case "call":
			if !effectNames.MatchString(ev.Name) {
				return
			}
			if strings.HasSuffix(ev.Name, "AppendBlock") && (op.name == "CALL" || op.name == "CALL2") && !op.off {
				_, ok := matchT(pat("MakeRequestBlock(___)"), ev.Args[len(ev.Args)-1], Bind{})
				c.Ob(ok, "effect", name, c.P.pos(ev.Pos), "the appended request is not the generated one")
				return
			}
			t := ev.Res
			if t == nil || t.Op == "const" || t.Op == "tuple" {
				t = mk("call", ev.Name, nil, ev.Args...)
			}
			for t.Op == "ext" {
				t = t.Args[0]
			}
			if i >= len(effects) {
				c.Ob(false, "effect", name, c.P.pos(ev.Pos), "undocumented effect %v", t)
				return
			}
			want := strings.TrimPrefix(effects[i], "?")
			b, ok := matchT(pat(want), mk("call", ev.Name, nil, ev.Args...), Bind{})
			c.Ob(ok, "effect", name, c.P.pos(ev.Pos), "effect %v instead of %s", t, want)
			if x := b["X"]; ok && x != nil {
				logObj = x
			}
			i++
		case "store", "mapset", "mapdel":
			a := ev.Args[0]
			r := a.root()
			if localObj(r) || r.Op != "param" && r.Op != "gaddr" && r.Op != "global" {
				return
			}
			s := a.String()
			switch {
			case a.has(data) || a == mkFA(data.Args[0], "data", nil2):
				return
			case a.Op == "param" && a.Sym == "0":
				return // program counter, judged below
			case op.name == "MSTORE8" && strings.Contains(s, "A3.store"):
				return
			case (op.name == "CALL" || op.name == "CALL2") && !op.off && strings.HasSuffix(s, "sendBlockList"):
				v := ev.Args[1]
				_, ok := matchT(pat("MakeRequestBlock(___)"), lastAppended(v), Bind{})
				c.Ob(ok && v.Op == "append" && strings.HasSuffix(v.Args[0].String(), "sendBlockList"), "effect", name, c.P.pos(ev.Pos), "the request list becomes %v", v)
				return
			}
			c.Ob(false, "effect", name, c.P.pos(ev.Pos), "undocumented write to %v", a)
		case "bigset":
			r := ev.Args[0]
			if r.has(data) || localObj(r.root()) || r.mentions(func(t *Term) bool { return strings.Contains(t.Sym, "IntPool.Get") }) {
				return
			}
			c.Ob(false, "effect", name, c.P.pos(ev.Pos), "undocumented change of the number %v", r)
		}
	})
	need := 0
	for _, e := range effects {
		if !strings.HasPrefix(e, "?") {
			need++
		}
	}
	c.Ob(i >= need, "effect", name, p.where(), "a documented effect is missing (%d of %d): %s", i, need, p.Describe())
	// entries below the result are untouched
	if op.name == "DELEGATECALL" {
		okRet := p.Holds("VM.delegateCall(___).R1 == nil") || p.Holds("VM.delegateCall(___).R1 == util.ErrExecutionReverted")
		c.Ob((i == 2) == okRet, "effect", name, p.where(), "the output area must be written exactly when the call succeeded or reverted: %s", p.Describe())
		_, ok := matchT(pat("VM.delegateCall(___).R0"), p.o.res[0], Bind{})
		c.Ob(ok, "effect", name, p.where(), "the return data is %v", p.o.res[0])
	}
	// program counter
	pc := p.o.st.load(mk("param", "0", funcByTerm[op.exec].Params[0].Type()))
	want := "*A0"
	var n int
	switch {
	case op.name == "JUMP" || op.name == "JUMPI" && p.Holds(expandSpec("S1 != 0", false)):
		want = expandSpec("S0", false)
	case op.name == "JUMPI":
		want = "*A0 + 1"
	case strings.HasPrefix(op.name, "PUSH"):
		fmt.Sscanf(op.name[4:], "%d", &n)
		want = fmt.Sprintf("*A0 + %d", n)
	}
	_, ok := matchT(pat(want), pc, Bind{})
	c.Ob(ok, "program-counter", name, p.where(), "the program counter becomes %v, documented is %s: %s", pc, want, p.Describe())
	jump := op.name == "JUMP" || op.name == "JUMPI"
	c.Ob(op.flags["jumps"] == jump, "flags", name, p.where(), "the interpreter must not advance past a jump (and only then)")
	c.Ob(op.flags["halts"] == (op.name == "STOP" || op.name == "RETURN" || op.off && op.name == "REVERT"), "flags", name, p.where(), "halting flag")
	c.Ob(op.flags["reverts"] == (op.name == "REVERT" && !op.off), "flags", name, p.where(), "revert flag")
	// returned data
	if op.name == "RETURN" || op.name == "REVERT" && !op.off {
		_, ok := matchT(pat(expandSpec("memory.getPtr(A3, S0, S1)", false)), p.o.res[0], Bind{})
		if !ok {
			_, ok = matchT(pat(expandSpec("memory.get(A3, S0, S1)", false)), p.o.res[0], Bind{})
		}
		c.Ob(ok, "effect", name, p.where(), "the returned data is %v", p.o.res[0])
	}
	if op.name == "MSTORE8" {
		ok := false
		idx, val := pat(expandSpec("S0", false)), pat(expandSpec("S1 & 255", false))
		for a, v := range p.o.st.mem {
			if a.Op == "ia" {
				_, ok1 := matchT(idx, noConv(a.Args[1]), Bind{})
				_, ok2 := matchT(val, noConv(v), Bind{})
				_, ok3 := matchT(pat(expandSpec("S1", false)), noConv(v), Bind{})
				ok = ok || ok1 && (ok2 || ok3)
			}
		}
		c.Ob(ok, "effect", name, p.where(), "the byte is not stored at its offset")
	}
	if logObj != nil {
		st := p.o.st
		d := st.load(mkFA(logObj, "Data", nil2))
		_, ok := matchT(pat(expandSpec("memory.get(A3, S0, S1)", false)), d, Bind{})
		c.Ob(ok, "effect", name, p.where(), "the log data is %v", d)
		fmt.Sscanf(op.name[3:], "%d", &n)
		ts := st.load(mkFA(logObj, "Topics", nil2))
		for j := 0; j < n; j++ {
			v := st.load(mk("ia", "", types.NewPointer(nil2), ts, kInt(int64(j))))
			_, ok := matchT(pat(fmt.Sprintf("BigToHash(A4.data[len(A4.data)-%d])", j+3)), v, Bind{})
			c.Ob(ok, "effect", name, p.where(), "log topic %d is %v", j, v)
		}
	}
	if op.name == "BALANCE" {
		ok := false
		for _, ev := range calls(p.Evs, "GetBalance") {
			v := p.o.st.load(ev.Args[len(ev.Args)-1])
			if _, o := matchT(pat(expandSpec("BigToTokenTypeId(S0)", false)), v, Bind{}); o {
				ok = true
			}
		}
		c.Ob(ok, "effect", name, p.where(), "the balance of another token is read")
	}
	if op.name == "EXTCODESIZE" || op.name == "EXTCODECOPY" {
		ok := false
		for _, ev := range calls(p.Evs, "GetContractCode") {
			v := p.o.st.load(ev.Args[1])
			if _, o := matchT(pat(expandSpec("BigToAddress(S0)", false)), v, Bind{}); o {
				ok = true
			}
		}
		c.Ob(ok, "effect", name, p.where(), "the code of another address is read")
	}
}

func lastAppended(t *Term) *Term {
	if t.Op == "append" && len(t.Args) > 1 {
		return t.Args[len(t.Args)-1]
	}
	return t
}
