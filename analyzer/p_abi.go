package main

import (
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C37",
		Title: "ABI data decodes to the values encoded and bad data is refused, not read past",
		Statement: "Decoding call data, results, events or contract variables never reads outside the data given: an argument whose place, announced position or announced length does not lie within the data is refused with an error. " +
			"What is decoded is what the encoding says: arguments lie in order in words of 32 bytes, inline arrays taking one word per element, strings, bytes and slices at their announced position with their announced length, and each kind of value at its end of the word; encoding writes exactly this layout. " +
			"Call data is decoded by the method whose identifier, the first four bytes of the hash of its signature, it starts with, and only if that is the method asked for.",
		Over:  []string{"inputs"},
		Quant: "all byte strings given as call data, results, events and variables; all argument lists an ABI description can declare",
		Why:   "Call data comes from anyone and is decoded on every node: a length or position that is not bounded crashes all of them, and the malformed strings that reach a given read are too many to sample.",
		Files: []string{"vm/abi/unpack.go", "vm/abi/argument.go", "vm/abi/pack.go", "vm/abi/abi.go", "vm/abi/method.go", "vm/abi/event.go", "vm/abi/type.go", "vm/abi/reflect.go"},
		Mech: [][2]string{{"bounds of announced positions", "vm/abi/unpack.go lengthPrefixPointsTo"}, {"bounds of lists", "vm/abi/unpack.go forEachUnpack"}, {"argument positions", "vm/abi/argument.go Arguments.UnpackValues"},
			{"encoding", "vm/abi/argument.go Arguments.Pack"}, {"method selection", "vm/abi/abi.go ABIContract.UnpackMethod"}},
		Technique: "functional specification decided by path-sensitive dataflow (results, refusals, loop-carried positions); bounds decided from the path's facts",
		Note:      "The values are assigned to Go variables through package reflect, which is trusted. Element types of lists are words (lists of lists cannot be declared; the decoder's treatment of them is not decided).",
		Run:       runC37,
	})
}

const abiPkg = "vm/abi"

const abiSpec = `
fn Type.requiresLengthPrefix
 plain
 ret 0 iff A0.T == 3 || A0.T == 10 || A0.T == 4

fn toGoType
 err 1
 ok A0 + 32 <= len(A2)
 mayfail A0 + 32 > len(A2)
 mayfail lengthPrefixPointsTo(A0, A2).R2 != nil
 mayfail forEachUnpack(A1, A2, lengthPrefixPointsTo(A0, A2).R0, lengthPrefixPointsTo(A0, A2).R1).R1 != nil
 mayfail forEachUnpack(A1, A2, A0, A1.Size).R1 != nil
 mayfail readBool(sub(A2, A0, A0 + 32)).R1 != nil
 mayfail readFixedBytes(A1, sub(A2, A0, A0 + 32)).R1 != nil
 mayfail A1.T != 0 && A1.T != 1 && A1.T != 2 && A1.T != 3 && A1.T != 4 && A1.T != 5 && A1.T != 6 && A1.T != 7 && A1.T != 8 && A1.T != 9 && A1.T != 10
 case A1.T == 0
  ret 0 readInteger(A1.Kind, sub(A2, A0, A0 + 32))
 case A1.T == 1
  ret 0 readInteger(A1.Kind, sub(A2, A0, A0 + 32))
 case A1.T == 2
  ret 0 readBool(sub(A2, A0, A0 + 32)).R0
 case A1.T == 3
  ret 0 sub(A2, lengthPrefixPointsTo(A0, A2).R0, lengthPrefixPointsTo(A0, A2).R0 + lengthPrefixPointsTo(A0, A2).R1)
 case A1.T == 4
  ret 0 forEachUnpack(A1, A2, lengthPrefixPointsTo(A0, A2).R0, lengthPrefixPointsTo(A0, A2).R1).R0
 case A1.T == 5
  ret 0 forEachUnpack(A1, A2, A0, A1.Size).R0
 case A1.T == 6
  ret 0 BytesToAddress(sub(A2, A0 + 11, A0 + 32)).R0
 case A1.T == 7
  ret 0 BytesToGid(sub(A2, A0 + 22, A0 + 32)).R0
 case A1.T == 8
  ret 0 BytesToTokenTypeId(sub(A2, A0 + 22, A0 + 32)).R0
 case A1.T == 9
  ret 0 readFixedBytes(A1, sub(A2, A0, A0 + 32)).R0
 case A1.T == 10

fn readInteger
 plain
 case A0 == 8
  ret 0 A1[len(A1) - 1]
 case A0 == 3
  ret 0 A1[len(A1) - 1]
 case A0 == 9
  ret 0 rdbe16(sub(A1, len(A1) - 2, nil))
 case A0 == 4
  ret 0 rdbe16(sub(A1, len(A1) - 2, nil))
 case A0 == 10
  ret 0 rdbe32(sub(A1, len(A1) - 4, nil))
 case A0 == 5
  ret 0 rdbe32(sub(A1, len(A1) - 4, nil))
 case A0 == 11
  ret 0 rdbe64(sub(A1, len(A1) - 8, nil))
 case A0 == 6
  ret 0 rdbe64(sub(A1, len(A1) - 8, nil))
 case A0 != 8 && A0 != 3 && A0 != 9 && A0 != 4 && A0 != 10 && A0 != 5 && A0 != 11 && A0 != 6
  ret 0 SetBytes(A1)

fn readFixedBytes
 err 1
 ok A0.T == 9
 mayfail A0.T != 9
 watch Copy
 call Copy(Elem(New(A0.Type)), ValueOf(sub(A1, nil, A0.Size)))
 ret 0 Interface(Elem(New(A0.Type)))

fn packBytesSlice
 err 1
 mayfail packNum(ValueOf(A1)).R1 != nil
 ret 0 append(packNum(ValueOf(A1)).R0, spread(RightPadBytes(A0, ((A1 + 31) / 32) * 32)))

fn ABIContract.UnpackMethod
 err 0
 ok len(A3) > 4
 mayfail len(A3) <= 4
 mayfail MethodById(_, _).R1 != nil
 mayfail MethodById(_, _).R0.Name != A2
 mayfail Unpack(MethodById(_, _).R0.Inputs, A1, sub(A3, 4, nil)) != nil
 call Unpack(MethodById(_, _).R0.Inputs, A1, sub(A3, 4, nil))
 ok MethodById(_, _).R1 == nil && MethodById(_, _).R0.Name == A2

fn ABIContract.DirectUnpackMethodInput
 err 1
 ok len(A2) > 4
 mayfail len(A2) <= 4
 mayfail MethodById(_, _).R1 != nil
 mayfail MethodById(_, _).R0.Name != A1
 mayfail DirectUnpack(MethodById(_, _).R0.Inputs, sub(A2, 4, nil)).R1 != nil
 ok MethodById(_, _).R1 == nil && MethodById(_, _).R0.Name == A1
 ret 0 DirectUnpack(MethodById(_, _).R0.Inputs, sub(A2, 4, nil)).R0

fn ABIContract.UnpackEvent
 err 0
 ok len(A3) != 0
 mayfail len(A3) == 0
 mayfail !mapok(A0.Events, A2)
 mayfail Unpack(A0.Events[A2].NonIndexedInputs, A1, A3) != nil
 call Unpack(A0.Events[A2].NonIndexedInputs, A1, A3)

fn ABIContract.UnpackVariable
 err 0
 ok len(A3) != 0
 mayfail len(A3) == 0
 mayfail !mapok(A0.Variables, A2)
 mayfail Unpack(A0.Variables[A2].Inputs, A1, A3) != nil
 call Unpack(A0.Variables[A2].Inputs, A1, A3)

fn getEventInputs
 plain
 ret 0 list each A0 : A0[I].Indexed ? A0[I]
 ret 1 list each A0 : !A0[I].Indexed ? A0[I]

fn Arguments.Unpack
 err 0
 def V UnpackValues(A0, A2).R0
 ok Kind(ValueOf(A1)) == 22
 mayfail Kind(ValueOf(A1)) != 22
 mayfail UnpackValues(A0, A2).R1 != nil
 mayfail unpackTuple(A0, A1, $V) != nil
 mayfail unpackAtomic(A0, A1, $V) != nil
 case len(A0) > 1
  call unpackTuple(A0, A1, $V)
 case len(A0) <= 1
  call unpackAtomic(A0, A1, $V)

fn Arguments.DirectUnpack
 err 1
 mayfail UnpackValues(A0, A1).R1 != nil
 ret 0 UnpackValues(A0, A1).R0

fn Arguments.unpackAtomic
 err 0
 def E Elem(ValueOf(A1))
 def M mapAbiToStructFields(A0, $E)
 ok len(A2) == 1
 mayfail len(A2) != 1
 mayfail $M.R1 != nil
 mayfail set(_, ValueOf(A2[0]), A0[0]) != nil
 case Kind($E) != 25
  call set($E, ValueOf(A2[0]), A0[0])
 case Kind($E) == 25 && mapok($M.R0, A0[0].Name)
  call set(FieldByName($E, mapget($M.R0, A0[0].Name)), ValueOf(A2[0]), A0[0])
 case Kind($E) == 25 && !mapok($M.R0, A0[0].Name)

fn packElement
 err 1
 mayfail A0.T != 0 && A0.T != 1 && A0.T != 2 && A0.T != 3 && A0.T != 6 && A0.T != 7 && A0.T != 8 && A0.T != 9 && A0.T != 10
 mayfail packNum(A1).R1 != nil
 mayfail packBytesSlice(_, _).R1 != nil
 case A0.T == 0
  ret 0 packNum(A1).R0
 case A0.T == 1
  ret 0 packNum(A1).R0
 case A0.T == 2 && Bool(A1)
  ret 0 PaddedBigBytes(1, 32)
 case A0.T == 2 && !Bool(A1)
  ret 0 PaddedBigBytes(0, 32)
 case A0.T == 3
  ret 0 packBytesSlice(Value.String(A1), Len(A1)).R0
 case A0.T == 6 && Kind(A1) != 17
  ret 0 LeftPadBytes(Bytes(A1), 32)
 case A0.T == 6 && Kind(A1) == 17
  ret 0 LeftPadBytes(Bytes(mustArrayToByteSlice(A1)), 32)
 case A0.T == 7 && Kind(A1) != 17
  ret 0 LeftPadBytes(Bytes(A1), 32)
 case A0.T == 7 && Kind(A1) == 17
  ret 0 LeftPadBytes(Bytes(mustArrayToByteSlice(A1)), 32)
 case A0.T == 8 && Kind(A1) != 17
  ret 0 LeftPadBytes(Bytes(A1), 32)
 case A0.T == 8 && Kind(A1) == 17
  ret 0 LeftPadBytes(Bytes(mustArrayToByteSlice(A1)), 32)
 case A0.T == 9 && Kind(A1) != 17
  ret 0 RightPadBytes(Bytes(A1), 32)
 case A0.T == 9 && Kind(A1) == 17
  ret 0 RightPadBytes(Bytes(mustArrayToByteSlice(A1)), 32)
 case A0.T == 10 && Kind(A1) != 17
  ret 0 packBytesSlice(Bytes(A1), Len(A1)).R0
 case A0.T == 10 && Kind(A1) == 17
  ret 0 packBytesSlice(Bytes(mustArrayToByteSlice(A1)), Len(mustArrayToByteSlice(A1))).R0

fn ABIContract.packMethod
 err 1
 mayfail Pack(A1.Inputs, A2).R1 != nil
 ret 0 append(Id(A1), spread(Pack(A1.Inputs, A2).R0))
`

func runC37(c *Ctx) {
	opq := map[string]string{
		"toGoType": "lengthPrefixPointsTo forEachUnpack readInteger readBool readFixedBytes BytesToAddress BytesToGid BytesToTokenTypeId", "packBytesSlice": "packNum RightPadBytes",
		"packElement": "packNum packBytesSlice mustArrayToByteSlice RightPadBytes LeftPadBytes PaddedBigBytes", "Arguments.Unpack": "UnpackValues unpackTuple unpackAtomic",
		"Arguments.DirectUnpack": "UnpackValues", "Arguments.unpackAtomic": "set mapAbiToStructFields", "ABIContract.packMethod": "Arguments.Pack Method.Id"}
	for _, s := range parseSpecs(abiSpec) {
		o := opq[s.fn]
		if strings.HasPrefix(s.fn, "ABIContract.") && strings.Contains(s.fn, "npack") {
			o = "ABIContract.MethodById Arguments.Unpack Arguments.DirectUnpack"
		}
		c.specFn(c.Opts([]string{abiPkg}, strings.Fields(o)...), abiPkg, s, "decode")
	}
	c.Floor("decode", 20)
	c.abiBounds()
	c.abiLists()
	c.abiLayout()
	c.abiMethods()
	c.abiEvents()
	c.abiEncode()
	c.abiJSON()
}

// abiBounds: announced positions and lengths lie within the data.
func (c *Ctx) abiBounds() {
	const fn = "lengthPrefixPointsTo"
	x := c.pathsOf(abiPkg, fn, "")
	for _, p := range x.success(2) {
		s, l := stripConv(p.o.res[0]), stripConv(p.o.res[1])
		q := p.also("X", s).also("Y", l).also("Q", p.o.res[0])
		c.Ob(p.isV(s, "SetBytes(sub(A1, A0, A0 + 32)) + 32"), "bounds", fn, p.where(), "the content starts at %s", trunc(s.String(), 160))
		c.Ob(q.isV(l, "SetBytes(sub(A1, Q - 32, Q))"), "bounds", fn, p.where(), "the length is %s", trunc(l.String(), 160))
		c.Ob(q.rel("X <= len(A1)"), "bounds", fn, p.where(), "accepts a position beyond the data: %s", p.Describe())
		c.Ob(q.rel("X + Y <= len(A1)"), "bounds", fn, p.where(), "accepts a length beyond the data: %s", p.Describe())
	}
	for _, p := range x.failure(2) {
		good := false
		for _, f := range p.F {
			if f.A.Op == "pcall" && strings.HasSuffix(f.A.Sym, "BitLen") && f.Mask == GT {
				if n, ok := i64(f.B); ok && n >= 63 {
					good = true
				}
			}
		}
		for _, f := range p.F {
			a, b, m := f.A, f.B, f.Mask
			if a.Op != "len" && !strings.HasPrefix(a.String(), "len(") {
				a, b, m = f.B, f.A, flipMask(f.Mask)
			}
			if a.Op != "len" || m != LT {
				continue
			}
			start := "SetBytes(sub(A1, A0, A0 + 32)) + 32"
			if p.isV(b, start) {
				good = true
			}
			b.mentions(func(t *Term) bool {
				q := p.also("Y", t)
				if t.Op == "big" || strings.HasPrefix(t.String(), "big:SetBytes(sub(") {
					if q.isV(b, start+" + Y") && !p.isV(t, "SetBytes(sub(A1, A0, A0 + 32))") {
						good = true
					}
				}
				return false
			})
		}
		c.Ob(good, "bounds", fn, p.where(), "refuses data that is long enough: %s", p.Describe())
	}
	y := c.pathsOf(abiPkg, "toGoType", "lengthPrefixPointsTo forEachUnpack readInteger readBool readFixedBytes BytesToAddress BytesToGid BytesToTokenTypeId")
	for _, p := range y.success(1) {
		if p.Holds("A1.T == 10") {
			v := p.o.st.bytesVal(stripConv(p.o.res[0]))
			const l = "lengthPrefixPointsTo(A0, A2)"
			c.Ob(p.isV(v, "sub(A2, "+l+".R0, "+l+".R0 + "+l+".R1)"), "bounds", "toGoType", p.where(), "the bytes decoded are %s", trunc(v.String(), 160))
		}
	}
	c.Floor("bounds", 8)
	z := c.pathsOf(abiPkg, "readBool", "")
	for _, p := range z.success(1) {
		v, ok := kBoolOf(p.o.res[0])
		zero := false
		for _, ev := range p.Evs {
			if ev.Kind == "loop" {
				for _, ph := range ev.Loop.Phis {
					n, isN := i64(ph.Init)
					if !isN || n != 0 && n != -1 || !stepOne(ph) {
						continue
					}
					q := p.also("J", ph.Iter)
					all := q.rel("J >= 31")
					for _, st := range ev.Loop.Iters {
						all = all && p.iterPath(ev, st, ph.Iter).Holds("A0[I] == 0")
					}
					zero = zero || all
				}
			}
		}
		c.Ob(zero, "bool", "readBool", p.where(), "accepts a word whose first 31 bytes are not all zero: %s", p.Describe())
		c.Ob(ok && (v && p.Holds("A0[31] == 1") || !v && p.Holds("A0[31] == 0")), "bool", "readBool", p.where(), "decodes %s: %s", p.o.res[0], p.Describe())
	}
	for _, p := range z.failure(1) {
		good := p.Holds("A0[31] != 0") && p.Holds("A0[31] != 1")
		for _, ev := range p.Evs {
			if ev.Kind == "loop" {
				for _, ph := range ev.Loop.Phis {
					q := p.also("J", ph.Iter)
					good = good || q.rel("J < 31") && q.Holds("A0[J] != 0")
				}
			}
		}
		c.Ob(good, "bool", "readBool", p.where(), "refuses a boolean: %s", p.Describe())
	}
	c.Floor("bool", 4)
}

// phiStep: the value of t in the first round, and how it changes in the given
// round; idx counts the rounds.
func phiStep(p *Path, ev *Event, k int, idx, t *Term) (first, step *Term) {
	ini, nxt := map[*Term]*Term{}, map[*Term]*Term{}
	for _, ph := range ev.Loop.Phis {
		if ph.Iter == idx {
			continue
		}
		ini[ph.Iter] = ph.Init
		if k < len(ph.Next) {
			nxt[ph.Iter] = ph.Next[k]
		}
	}
	sub := func(t *Term, m map[*Term]*Term) *Term { return subst(t, m, map[*Term]*Term{}) }
	t0, t1 := sub(t, map[*Term]*Term{idx: kInt(0)}), sub(t, map[*Term]*Term{idx: kInt(1)})
	return sub(t0, ini), fromLin(linPlus(toLin(sub(t1, nxt)), toLin(t0), toLin(kInt(-1)).c), t.Typ)
}

// abiLists: the elements of a list are read one by one within the data.
func (c *Ctx) abiLists() {
	const fn = "forEachUnpack"
	x := c.pathsOf(abiPkg, fn, "toGoType getFullElemSize")
	for _, p := range x.success(1) {
		w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "list", fn, p.where(), f, a...) }
		w(p.rel("A3 >= 0"), "a negative length: %s", p.Describe())
		w(p.rel("A2 + 32 * A3 <= len(A1)"), "a list beyond the data: %s", p.Describe())
		slice := p.Holds("A0.T == 4")
		w(slice || p.Holds("A0.T == 5"), "neither slice nor array: %s", p.Describe())
		ref := "Elem(New(A0.Type))"
		if slice {
			ref = "MakeSlice(A0.Type, A3, A3)"
		}
		w(p.isV(p.o.res[0], "Interface("+ref+")"), "gives %s", trunc(p.o.res[0].String(), 120))
		n := 0
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				if v, ok := i64(ph.Init); !ok || v != 0 || !stepOne(ph) || !p.also("J", ph.Iter).rel("J >= A3") {
					continue
				}
				n++
				for k, st := range ev.Loop.Iters {
					q := p.iterPath(ev, st, ph.Iter).also("J", ph.Iter)
					tg, set := calls(q.Evs, "toGoType"), calls(q.Evs, "Set")
					if len(tg) != 1 || len(set) != 1 {
						w(false, "an element is read %d times and set %d times", len(tg), len(set))
						continue
					}
					w(q.rel("J < A3"), "goes beyond the length")
					w(q.also("X", tg[0].Res).Holds("X.R1 == nil"), "an element that does not decode is accepted")
					first, step := phiStep(p, ev, k, ph.Iter, tg[0].Args[0])
					w(p.eq(first, "A2"), "the first element is read at %s", first)
					w(p.eq(step, "32") || !slice && isT(step, "getFullElemSize(A0.Elem)"), "elements lie %s apart", step)
					w(isT(tg[0].Args[1], "*A0.Elem") && isT(tg[0].Args[2], "A1"), "reads a %s from %s", tg[0].Args[1], tg[0].Args[2])
					w(q.isV(set[0].Args[0], "Index("+ref+", J)") && q.also("X", tg[0].Res).isV(set[0].Args[1], "ValueOf(X.R0)"), "sets %s to %s", trunc(set[0].Args[0].String(), 90), trunc(set[0].Args[1].String(), 90))
				}
			}
		}
		w(n == 1, "no loop over the %d elements", n)
	}
	for _, p := range x.failure(1) {
		good := p.rel("A3 < 0") || p.rel("A2 + 32 * A3 > len(A1)") || p.Holds("A0.T != 4") && p.Holds("A0.T != 5")
		for _, f := range p.F {
			good = good || f.A.Op == "ext" && f.A.Sym == "1" && baseName(f.A.Args[0].Sym) == "toGoType" && f.Mask == NE
		}
		c.Ob(good, "list", fn, p.where(), "refuses a list that fits: %s", p.Describe())
	}
	c.Floor("list", 15)
	for _, g := range [][2]string{{"getFullElemSize", "32"}, {"getArraySize", "A0.Size"}} {
		z := c.pathsOf(abiPkg, g[0], "")
		for _, p := range z.all() {
			good := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, ph := range ev.Loop.Phis {
					good = good || ph.Iter == p.o.res[0] && p.eq(ph.Init, g[1])
				}
				for _, st := range ev.Loop.Iters {
					q := p.iterPath(ev, st, nil)
					nest := false
					for _, f := range q.F {
						if v, ok := i64(f.B); ok && v == 5 && f.Mask == EQ && strings.HasSuffix(f.A.String(), ".T") {
							nest = true
						}
					}
					good = good && nest
				}
			}
			good = good || p.isV(p.o.res[0], g[1])
			c.Ob(good, "size", g[0], p.where(), "the size of a flat type is not %s", g[1])
		}
	}
	c.Floor("size", 2)
}

// abiLayout: where the arguments lie, decoding and encoding.
func (c *Ctx) abiLayout() {
	{
		const fn = "Arguments.UnpackValues"
		x := c.pathsOf(abiPkg, fn, "toGoType getArraySize")
		for _, p := range x.success(1) {
			w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "layout", fn, p.where(), f, a...) }
			n := 0
			for _, l := range p.loopsOver("A0") {
				if !l.full {
					continue
				}
				n++
				for k, st := range l.ev.Loop.Iters {
					q := p.iterPath(l.ev, st, l.idx)
					tg := calls(q.Evs, "toGoType")
					if len(tg) != 1 {
						w(false, "an argument is read %d times", len(tg))
						continue
					}
					w(q.also("X", tg[0].Res).Holds("X.R1 == nil"), "an argument that does not decode is accepted")
					first, step := phiStep(p, l.ev, k, l.idx, tg[0].Args[0])
					w(p.eq(first, "0"), "the first argument is read at %s", first)
					arr := q.Holds("A0[I].Type.T == 5")
					w(arr || q.Holds("A0[I].Type.T != 5"), "arrays are not told from other arguments")
					if arr {
						good := isT(step, "32 * getArraySize(_)") || isT(step, "getArraySize(_) * 32")
						w(good, "an array takes %s bytes", step)
					} else {
						w(p.eq(step, "32"), "an argument takes %s bytes", step)
					}
					w(q.isV(tg[0].Args[1], "A0[I].Type") && isT(tg[0].Args[2], "A1"), "reads a %s from %s", tg[0].Args[1], tg[0].Args[2])
					good := false
					for _, ph := range l.ev.Loop.Phis {
						good = good || ph.Iter == p.o.res[0] && k < len(ph.Next) && q.also("X", tg[0].Res).also("Y", ph.Iter).isV(ph.Next[k], "append(Y, X.R0)") && (isEmptyBytes(p, ph.Init) || strings.Contains(ph.Init.String(), "(0)"))
					}
					w(good, "the value read is not appended to the result %s", trunc(p.o.res[0].String(), 80))
				}
			}
			w(n == 1, "no loop over the arguments")
		}
		for _, p := range x.failure(1) {
			good := false
			for _, f := range p.F {
				good = good || f.A.Op == "ext" && f.A.Sym == "1" && baseName(f.A.Args[0].Sym) == "toGoType" && f.Mask == NE
			}
			c.Ob(good, "layout", fn, p.where(), "refuses values that decode: %s", p.Describe())
		}
	}
	{
		const fn = "Arguments.Pack"
		x := c.pathsOf(abiPkg, fn, "Type.pack packNum requiresLengthPrefix")
		for _, p := range x.success(1) {
			w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "layout", fn, p.where(), f, a...) }
			w(p.rel("len(A0) == len(A1)"), "values and arguments differ in number: %s", p.Describe())
			var head *Term
			b, ok := p.matchV(p.o.res[0], "append(X, spread(Y))")
			n := 0
			if !ok {
				w(false, "gives %s", trunc(p.o.res[0].String(), 120))
				continue
			}
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				var px, py *PhiInfo
				var idx *Term
				for i := range ev.Loop.Phis {
					ph := &ev.Loop.Phis[i]
					switch {
					case ph.Iter == b["X"]:
						px = ph
					case ph.Iter == b["Y"]:
						py = ph
					case stepOne(*ph) && (p.also("J", ph.Iter).rel("J >= len(A1)") || p.also("J", ph.Iter).rel("J >= len(A0)")):
						idx = ph.Iter
					}
				}
				if px == nil || py == nil || idx == nil {
					continue
				}
				n++
				w(isEmptyBytes(p, px.Init) && isEmptyBytes(p, py.Init), "starts with %s and %s", px.Init, py.Init)
				for k, st := range ev.Loop.Iters {
					it := p.iterPath(ev, st, idx)
					it = it.also("X", b["X"]).also("Y", b["Y"])
					const pk = "pack(A0[I].Type, ValueOf(A1[I])).R0"
					for _, ev := range calls(it.Evs, "pack", "packNum") {
						w(it.also("Z", ev.Res).Holds("Z.R1 == nil"), "a value that does not encode is accepted")
					}
					switch {
					case it.Holds("requiresLengthPrefix(A0[I].Type)"):
						bb, ok := it.matchV(px.Next[k], "append(X, spread(packNum(ValueOf(Z)).R0))")
						w(ok && it.isV(py.Next[k], "append(Y, spread("+pk+"))"), "a value with a length becomes %s and %s", trunc(px.Next[k].String(), 140), trunc(py.Next[k].String(), 140))
						if ok {
							lf := toLin(bb["Z"])
							good := len(lf.ks) == 2 && lf.c.ExactString() == "0"
							for t, kk := range lf.ks {
								if kk.ExactString() != "1" {
									good = false
								}
								if !(t.Op == "len" && t.Args[0] == b["Y"]) {
									head = t
								}
							}
							w(good && head != nil, "the position written is %s", trunc(bb["Z"].String(), 140))
						}
					case it.Holds("!requiresLengthPrefix(A0[I].Type)"):
						w(it.isV(px.Next[k], "append(X, spread("+pk+"))") && py.Next[k] == b["Y"], "a value becomes %s and %s", trunc(px.Next[k].String(), 140), trunc(py.Next[k].String(), 140))
					default:
						w(false, "values with a length are not told from others")
					}
				}
			}
			w(n == 1, "no loop builds the data")
			m := 0
			for _, l := range p.loopsOver("A0") {
				for _, ph := range l.ev.Loop.Phis {
					if ph.Iter != head || head == nil {
						continue
					}
					m++
					w(l.full && p.eq(ph.Init, "0"), "the head of the data starts at %s", ph.Init)
					for k, st := range l.ev.Loop.Iters {
						it := p.iterPath(l.ev, st, l.idx)
						_, step := phiStep(p, l.ev, k, l.idx, head)
						w(it.Holds("A0[I].Type.T == 5") && it.eq(step, "32 * A0[I].Type.Size") || it.Holds("A0[I].Type.T != 5") && p.eq(step, "32"), "an argument's place takes %s bytes", step)
					}
				}
			}
			w(head == nil || m == 1, "the size of the head is not summed over the arguments")
		}
		for _, p := range x.failure(1) {
			good := p.Holds("len(A0) != len(A1)")
			for _, f := range p.F {
				good = good || f.A.Op == "ext" && f.A.Sym == "1" && (baseName(f.A.Args[0].Sym) == "pack" || baseName(f.A.Args[0].Sym) == "packNum") && f.Mask == NE
			}
			c.Ob(good, "layout", fn, p.where(), "refuses values that encode: %s", p.Describe())
		}
	}
	c.Floor("layout", 20)
}

func isEmptyBytes(p *Path, t *Term) bool {
	t = stripConv(t)
	return isZero(t) || t == kNil() || t.Op == "mkslice" || isT(t, "nil")
}

func (c *Ctx) abiMethods() {
	const fn = "ABIContract.MethodById"
	x := c.pathsOf(abiPkg, fn, "")
	for _, p := range x.success(1) {
		good := false
		for _, f := range p.F {
			q := p.also("X", f.A).also("Y", f.B)
			if f.Mask == EQ && (isT(f.A, "rval(A0.Methods).id") && q.isV(f.B, "sub(A1, nil, 4)") || isT(f.B, "rval(A0.Methods).id") && q.isV(f.A, "sub(A1, nil, 4)")) {
				good = true
			}
		}
		v := p.o.st.load(p.o.res[0])
		c.Ob(good && isT(v, "rval(A0.Methods)"), "method", fn, p.where(), "gives %s: %s", trunc(v.String(), 90), p.Describe())
		c.Ob(p.rel("len(A1) >= 4"), "method", fn, p.where(), "reads an identifier of less than four bytes")
	}
	for _, p := range x.failure(1) {
		good := p.rel("len(A1) < 4")
		for _, l := range p.loopsOver("A0.Methods") {
			good = good || l.full
		}
		c.Ob(good, "method", fn, p.where(), "refuses a method of the contract: %s", p.Describe())
	}
	y := c.pathsOf(abiPkg, "newMethod", "Method.Sig Hash.Bytes DataHash")
	for _, p := range y.all() {
		v := p.o.res[0]
		id := p.o.st.bytesVal(fieldOf(v, "id", nil2))
		c.Ob(p.isV(fieldOf(v, "Name", nil2), "A0") && p.isV(fieldOf(v, "Inputs", nil2), "A1") && p.isV(fieldOf(v, "Outputs", nil2), "A2"), "method", "newMethod", p.where(), "makes %s", trunc(v.String(), 120))
		b, ok := matchT(pat("sub(Bytes(DataHash(Sig(X))), nil, 4)"), id, Bind{})
		c.Ob(ok && b["X"] != nil, "method", "newMethod", p.where(), "the identifier is %s", trunc(id.String(), 160))
	}
	for _, s := range parseSpecs(`
fn Method.Id
 plain
 ret 0 A0.id
fn Method.Sig
 plain
 ret 0 Sprintf("%v(%v)", list(A0.Name, Join(X, ","))) where X list each A0.Inputs : A0.Inputs[I].Type.stringKind
fn Event.Id
 plain
 ret 0 DataHash(Sprintf("%v(%v)", list(A0.Name, Join(X, ",")))) where X list each A0.Inputs : A0.Inputs[I].Type.stringKind
`) {
		c.specFn(c.Opts([]string{abiPkg}, "DataHash"), abiPkg, s, "method")
	}
	for _, g := range [][2]string{{"ABIContract.UnpackMethod", "A3"}, {"ABIContract.DirectUnpackMethodInput", "A2"}} {
		for _, p := range c.pathsOf(abiPkg, g[0], "ABIContract.MethodById Arguments.Unpack Arguments.DirectUnpack").all() {
			for _, ev := range calls(p.Evs, "MethodById") {
				v := p.o.st.load(ev.Args[0])
				c.Ob((p.isV(ev.Args[1], g[1]) || p.isV(ev.Args[1], "sub("+g[1]+", nil, 4)")) && (isT(v, "A0") || isT(v, "*A0")), "method", g[0], p.where(), "looks for the method %s of %s", trunc(ev.Args[1].String(), 80), trunc(v.String(), 60))
			}
		}
	}
	c.Floor("method", 8)
}

// abiEvents: an event's topics and data.
func (c *Ctx) abiEvents() {
	const fn, data = "Event.DirectUnPack", "DirectUnpack(A0.NonIndexedInputs, A2)"
	x := c.pathsOf(abiPkg, fn, "toGoType DirectUnpack")
	for _, p := range x.success(1) {
		w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "event", fn, p.where(), f, a...) }
		n := 0
		for _, l := range p.loopsOver("A0.Inputs") {
			for _, ph := range l.ev.Loop.Phis {
				if ph.Iter != p.o.res[0] || !l.full {
					continue
				}
				n++
				for k, st := range l.ev.Loop.Iters {
					it := p.iterPath(l.ev, st, l.idx).also("Y", ph.Iter)
					place := func(t *Term, from, by string) {
						first, step := phiStep(p, l.ev, k, l.idx, t)
						w(p.eq(first, from) && p.eq(step, by), "places start at %s and go up by %s", first, step)
					}
					counters := func(topic bool) {
						for _, q := range l.ev.Loop.Phis {
							if v, ok := i64(q.Init); ok && q.Iter != l.idx && q.Iter != ph.Iter {
								_, step := phiStep(p, l.ev, k, l.idx, q.Iter)
								w(p.eq(step, map[bool]string{true: "1", false: "0"}[topic == (v == 1)]), "a counter goes up by %s", step)
							}
						}
					}
					nx := ph.Next[k]
					if b, ok := it.matchV(nx, "append(Y, A1[Z])"); ok {
						w(it.Holds("A0.Inputs[I].Indexed") && (it.Holds("A0.Inputs[I].Type.T == 3") || it.Holds("A0.Inputs[I].Type.T == 4") || it.Holds("A0.Inputs[I].Type.T == 5") || it.Holds("A0.Inputs[I].Type.T == 10")), "gives a topic as it is: %s", it.Describe())
						w(it.also("Z", b["Z"]).rel("Z < len(A1)"), "reads a topic that need not exist: %s", it.Describe())
						place(b["Z"], "1", "1")
						counters(true)
					} else if b, ok := it.matchV(nx, "append(Y, toGoType(0, A0.Inputs[I].Type, A1[Z]).R0)"); ok {
						w(it.Holds("A0.Inputs[I].Indexed") && it.Holds("A0.Inputs[I].Type.T != 3") && it.Holds("A0.Inputs[I].Type.T != 4") && it.Holds("A0.Inputs[I].Type.T != 5") && it.Holds("A0.Inputs[I].Type.T != 10"), "decodes a topic: %s", it.Describe())
						w(it.also("Z", b["Z"]).rel("Z < len(A1)"), "reads a topic that need not exist: %s", it.Describe())
						place(b["Z"], "1", "1")
						counters(true)
					} else if b, ok := it.matchV(nx, "append(Y, "+data+".R0[Z])"); ok {
						w(it.Holds("!A0.Inputs[I].Indexed"), "takes an indexed value from the data: %s", it.Describe())
						place(b["Z"], "0", "1")
						counters(false)
					} else {
						w(false, "an argument becomes %s", trunc(nx.String(), 140))
					}
				}
			}
		}
		w(n == 1, "no loop over the arguments of the event")
	}
	for _, p := range x.failure(1) {
		good := p.Holds(data + ".R1 != nil")
		for _, f := range p.F {
			good = good || f.A.Op == "ext" && f.A.Sym == "1" && baseName(f.A.Args[0].Sym) == "toGoType" && f.Mask == NE
		}
		for _, ev := range p.Evs {
			if ev.Kind == "loop" {
				for _, ph := range ev.Loop.Phis {
					if v, ok := i64(ph.Init); ok && v == 1 {
						good = good || p.also("Z", ph.Iter).rel("Z >= len(A1)")
					}
				}
			}
		}
		c.Ob(good, "event", fn, p.where(), "refuses an event that decodes: %s", p.Describe())
	}
	c.Floor("event", 8)
}

// also: the path with one more name bound.
func (p *Path) also(n string, t *Term) *Path {
	q := *p
	q.B = Bind{n: t}
	for k, v := range p.B {
		if k != n {
			q.B[k] = v
		}
	}
	return &q
}

// abiEncode: numbers, lists and the topics of events.
func (c *Ctx) abiEncode() {
	x := c.pathsOf(abiPkg, "packNum", "U256")
	for _, q := range x.all() {
		p := q.o
		fail := !isNilT(p.res[1])
		has := func(lo, hi int) bool { // the kind is one of these
			for i := lo; i <= hi; i++ {
				if q.Holds("Kind(A0) == " + itoa(i)) {
					return true
				}
			}
			return false
		}
		none := true
		for _, i := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 22} {
			none = none && q.Holds("Kind(A0) != "+itoa(i))
		}
		w := func(ok bool) {
			c.Ob(ok, "encode", "packNum", q.where(), "a number becomes %s: %s", trunc(p.res[0].String(), 120), q.Describe())
		}
		switch {
		case fail:
			w(none)
		case has(2, 6):
			w(q.isV(p.res[0], "U256(Int(A0))"))
		case has(7, 11):
			w(q.isV(p.res[0], "U256(Uint(A0))"))
		case has(22, 22):
			b, ok := q.matchV(p.res[0], "U256(X)")
			w(ok && strings.HasPrefix(b["X"].String(), "assert:*big.Int(reflect.Value.Interface(A0)"))
		default:
			w(false)
		}
	}
	{
		const fn = "Type.pack"
		x := c.pathsOf(abiPkg, fn, "indirect typeCheck packElement packBytesSlice")
		for _, p := range x.success(1) {
			w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "encode", fn, p.where(), f, a...) }
			const v = "indirect(A1)"
			w(p.Holds("typeCheck(A0, "+v+") == nil"), "a value of another type is encoded: %s", p.Describe())
			var list *Term
			switch {
			case p.Holds("A0.T == 4"):
				b, ok := p.matchV(p.o.res[0], "packBytesSlice(X, Len("+v+")).R0")
				w(ok, "a slice becomes %s", trunc(p.o.res[0].String(), 140))
				if !ok {
					continue
				}
				list = b["X"]
			case p.Holds("A0.T == 5"):
				list = p.o.res[0]
			case p.Holds("A0.T != 4") && p.Holds("A0.T != 5"):
				w(p.isV(p.o.res[0], "packElement(A0, "+v+").R0"), "a value becomes %s", trunc(p.o.res[0].String(), 140))
				continue
			default:
				w(false, "lists are not told from other values: %s", p.Describe())
				continue
			}
			n := 0
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, ph := range ev.Loop.Phis {
					if ph.Iter != list {
						continue
					}
					for _, j := range ev.Loop.Phis {
						if i, ok := i64(j.Init); !ok || i != 0 || !stepOne(j) || !p.also("J", j.Iter).Holds("J >= Len("+v+")") {
							continue
						}
						n++
						for k, st := range ev.Loop.Iters {
							it := p.iterPath(ev, st, j.Iter).also("Y", list)
							const el = "pack(*A0.Elem, Index(" + v + ", I))"
							w(it.isV(ph.Next[k], "append(Y, spread("+el+".R0))") && it.Holds(el+".R1 == nil"), "an element becomes %s", trunc(ph.Next[k].String(), 140))
						}
					}
					w(isEmptyBytes(p, ph.Init), "a list starts with %s", ph.Init)
				}
			}
			w(n == 1, "no loop encodes the elements")
		}
	}
	{
		const fn = "Event.Pack"
		x := c.pathsOf(abiPkg, fn, "Type.pack Arguments.Pack Event.Id DataHash LeftPadBytes BytesToHash")
		for _, p := range x.success(2) {
			w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "encode", fn, p.where(), f, a...) }
			w(p.rel("len(A1) == len(A0.Inputs)"), "values and arguments differ in number: %s", p.Describe())
			tp := p.o.res[0]
			for tp.Op == "slice" {
				tp = tp.Args[0]
			}
			w(tp.Op == "mkslice" && len(tp.Args) > 0 && p.eq(tp.Args[0], "len(A0.IndexedInputs) + 1"), "the topics are %s", trunc(tp.String(), 120))
			w(p.isV(p.o.st.load(mk("ia", "", nil, tp, kInt(0))), "Id(A0)"), "the first topic is %s", p.o.st.load(mk("ia", "", nil, tp, kInt(0))))
			n := 0
			for i, l := range append(p.loopsOver("A1"), p.loopsOver("A0.Inputs")...) {
				if i > 0 {
					break
				}
				n++
				var list *Term
				for k, st := range l.ev.Loop.Iters {
					it := p.iterPath(l.ev, st, l.idx)
					var at, val *Term
					for a, v := range st.mem {
						if a.Op == "ia" && a.Args[0] == tp && !isZero(a.Args[1]) {
							at, val = a.Args[1], v
						}
					}
					const pk = "pack(A0.Inputs[I].Type, ValueOf(A1[I]))"
					if it.Holds("!A0.Inputs[I].Indexed") {
						w(at == nil, "an argument that is not indexed becomes a topic")
						for _, ph := range l.ev.Loop.Phis {
							if it.also("Y", ph.Iter).isV(ph.Next[k], "append(Y, A1[I])") {
								list = ph.Iter
							}
						}
						w(list != nil, "an argument that is not indexed is left out")
						continue
					}
					w(it.Holds("A0.Inputs[I].Indexed") && at != nil && it.Holds(pk+".R1 == nil"), "a topic is left out: %s", it.Describe())
					if at == nil {
						continue
					}
					first, step := phiStep(p, l.ev, k, l.idx, at)
					w(p.eq(first, "1") && p.eq(step, "1"), "topics start at %s and go up by %s", first, step)
					w(it.isV(val, "BytesToHash(LeftPadBytes("+pk+".R0, 32)).R0") && it.Holds("len("+pk+".R0) <= 32") || it.isV(val, "DataHash("+pk+".R0)") && it.Holds("len("+pk+".R0) > 32"), "a topic is %s", trunc(val.String(), 160))
				}
				for k, st := range l.ev.Loop.Iters {
					if it := p.iterPath(l.ev, st, l.idx); it.Holds("A0.Inputs[I].Indexed") {
						continue
					}
					for _, ph := range l.ev.Loop.Phis {
						if v, ok := i64(ph.Init); ok && v == 1 {
							w(ph.Next[k] == ph.Iter, "the place of topics moves for another argument")
						}
					}
				}
				if list == nil {
					continue
				}
				q := p.also("Y", list)
				w(isNilT(p.o.res[1]) && q.Holds("len(Y) <= 0") || q.isV(p.o.res[1], "Pack(A0.NonIndexedInputs, Y).R0") && q.Holds("Pack(A0.NonIndexedInputs, Y).R1 == nil"), "the data is %s", trunc(p.o.res[1].String(), 140))
			}
			w(n == 1, "no loop over the values")
		}
	}
	{
		const fn = "ABIContract.DirectUnpackEvent"
		x := c.pathsOf(abiPkg, fn, "Event.Id DirectUnPack Event.String")
		for _, p := range x.all() {
			w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "event", fn, p.where(), f, a...) }
			ds := calls(p.Evs, "DirectUnPack")
			if len(ds) == 0 {
				good := p.rel("len(A1) < 1")
				for _, l := range p.loopsOver("A0.Events") {
					good = good || l.full
				}
				w(good && !isNilT(p.o.res[2]), "an event of the contract is not decoded: %s", p.Describe())
				continue
			}
			w(p.rel("len(A1) >= 1") && p.Holds("Id(rval(A0.Events)) == A1[0]"), "decodes another event: %s", p.Describe())
			w(p.isV(p.o.res[1], "DirectUnPack(rval(A0.Events), A1, A2).R0") && p.isV(p.o.res[2], "DirectUnPack(rval(A0.Events), A1, A2).R1"), "gives %s", trunc(p.o.res[1].String(), 120))
		}
	}
	c.Floor("encode", 25)
}

// abiJSON: a description yields the methods, events and variables it lists.
func (c *Ctx) abiJSON() {
	const fn = "ABIContract.UnmarshalJSON"
	x := c.pathsOf(abiPkg, fn, "newMethod getEventInputs getCallBackName")
	for _, p := range x.success(0) {
		at := func(f string) *Term { return p.o.st.load(mkFA(param(0, x.f.Params[0].Type()), f, nil2)) }
		n := 0
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			over, idx, full := p.loopSubject(ev)
			if over == nil || !full {
				continue
			}
			n++
			c.Ob(strings.HasPrefix(over.String(), "out(json.Unmarshal(A1"), "json", fn, p.where(), "goes over %s", trunc(over.String(), 100))
			for _, st := range ev.Loop.Iters {
				it := p.iterPath(ev, st, idx).also("Z", over)
				w := func(ok bool, f string, a ...interface{}) { c.Ob(ok, "json", fn, p.where(), f, a...) }
				var sets []*Event
				for _, e := range it.Evs {
					if e.Kind == "mapset" {
						sets = append(sets, e)
					}
				}
				entry := func(m string, key string, good func(v *Term) bool) {
					w(len(sets) == 1 && sets[0].Args[0] == at(m) && it.isV(sets[0].Args[1], key) && good(sets[0].Args[2]), "an entry of %s is not recorded as described: %v", m, trunc(func() string {
						if len(sets) == 1 {
							return sets[0].Args[2].String()
						}
						return it.Describe()
					}(), 200))
				}
				fields := func(kv ...string) func(v *Term) bool {
					return func(v *Term) bool {
						for i := 0; i < len(kv); i += 2 {
							if !it.isV(fieldOf(v, kv[i], nil2), kv[i+1]) {
								return false
							}
						}
						return true
					}
				}
				switch {
				case it.Holds(`Z[I].Type == "function"`), it.Holds(`Z[I].Type == ""`):
					entry("Methods", "Z[I].Name", func(v *Term) bool { return it.isV(v, "newMethod(Z[I].Name, Z[I].Inputs, nil)") })
				case it.Holds(`Z[I].Type == "callback"`):
					entry("Callbacks", "getCallBackName(Z[I].Name)", func(v *Term) bool { return it.isV(v, "newMethod(getCallBackName(Z[I].Name), Z[I].Inputs, nil)") })
				case it.Holds(`Z[I].Type == "offchain"`):
					entry("OffChains", "Z[I].Name", func(v *Term) bool { return it.isV(v, "newMethod(Z[I].Name, Z[I].Inputs, Z[I].Outputs)") })
				case it.Holds(`Z[I].Type == "event"`):
					entry("Events", "Z[I].Name", fields("Name", "Z[I].Name", "Inputs", "Z[I].Inputs", "IndexedInputs", "getEventInputs(Z[I].Inputs).R0", "NonIndexedInputs", "getEventInputs(Z[I].Inputs).R1"))
				case it.Holds(`Z[I].Type == "variable"`):
					entry("Variables", "Z[I].Name", fields("Name", "Z[I].Name", "Inputs", "Z[I].Inputs"))
					w(it.Holds("len(Z[I].Inputs) != 0"), "a variable without a value is accepted")
				default:
					w(len(sets) == 0, "another entry is recorded: %s", it.Describe())
				}
			}
		}
		c.Ob(n == 1, "json", fn, p.where(), "no loop over the entries")
	}
	c.Floor("json", 8)
}
