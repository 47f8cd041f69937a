package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C35",
		Title: "Peers are admitted and heard only under the identity they proved",
		Statement: "A discovery packet is handled only if it has the current version and the minimum size, is signed by the node it names over exactly its payload, decodes as the message its code announces and is not older than the expiry time, and an answer is handled only if a request to that address is waiting for that kind of answer (a pong only if it echoes the hash of the ping that was sent). " +
			"A connection becomes a peer, and a sync connection is served, only after its handshake token proves the node id it is filed under (and the signature its block-producer key), it belongs to the same network and genesis and it is not denied by the access rules; whatever the other side sends, a failed check refuses the connection and does not stop the node. " +
			"Discovery messages, handshakes, node records and endpoints are encoded so that the other side decodes exactly the fields that were sent.",
		Over:  []string{"inputs", "histories"},
		Quant: "all packets, handshakes, keys, tokens and node records a peer can send",
		Why:   "Tests exchange well-formed messages between honest nodes; a skipped check or a field that is decoded into another one only shows against a crafted packet.",
		Files: []string{"net/discovery/message.go", "net/discovery/socket.go", "net/discovery/pool.go", "net/discovery/node.go", "net/vnode/node.go", "net/vnode/endpoint.go", "net/handshaker.go", "net/sync_conn.go", "net/net.go", "net/netool/net.go"},
		Mech: [][2]string{{"discovery packets", "net/discovery/message.go unPacket"}, {"answers", "net/discovery/pool.go requestPoolImpl.rec"}, {"handshake", "net/handshaker.go handshaker.verifyHandshake"},
			{"sync handshake", "net/sync_conn.go defaultSyncConnectionFactory.receive"}, {"access", "net/net.go net.authorize"}, {"endpoints", "net/vnode/endpoint.go EndPoint.Serialize"}},
		Technique: "functional specification of every decoding, verification and admission function decided by path-sensitive dataflow: acceptance conditions, fields, events on each path",
		Note:      "Signatures and key agreement are C28; protobuf and snappy are trusted. Freshness of the handshake token (replay) message framing and compression, and which id an answer comes from beyond its address, are not part of it.",
		Run:       runC35,
	})
}

const discMsgSpec = `
fn unPacket
 err 0
 def PL sub(A0, 34, len(A0) - 64)
 def ID sub(A0, 2, 34)
 def V VerifySig($ID, $PL, sub(A0, len(A0) - 64, nil))
 ok len(A0) >= 98
 ok A0[0] == 0
 ok $V.R1 == nil
 ok $V.R0
 ok Bytes2NodeID($ID).R1 == nil
 ok decode(A0[1], $PL).R1 == nil
 post A1.message.c = A0[1]
 post A1.message.id = Bytes2NodeID($ID).R0
 post A1.message.body = decode(A0[1], $PL).R0
 post A1.hash = Hash256(list($PL))

fn message.pack
 err 2
 def S serialize(A0.body)
 ok $S.R1 == nil
 ret 0 pack(A1, A0.c, $S.R0).R0
 ret 1 pack(A1, A0.c, $S.R0).R1

fn decode
 err 1
 ok A0 == 0 || A0 == 1 || A0 == 2 || A0 == 3
 ok A0 != 0 || ping.deserialize(_, A1) == nil
 ok A0 != 1 || pong.deserialize(_, A1) == nil
 ok A0 != 2 || findnode.deserialize(_, A1) == nil
 ok A0 != 3 || neighbors.deserialize(_, A1) == nil
 ret 0 NEW

fn findnode.serialize
 plain
 ret 0 Marshal(X).R0 where X obj Target = bytes A0.target; Count = A0.count; Time = Unix(A0.time)
 ret 1 Marshal(X).R1 where X obj Target = bytes A0.target; Count = A0.count; Time = Unix(A0.time)

fn findnode.deserialize
 err 0
 def D out(Unmarshal(A1, _), _)
 ok Unmarshal(A1, _) == nil
 ok Bytes2NodeID($D.Target).R1 == nil
 post A0.target = Bytes2NodeID($D.Target).R0
 post A0.count = $D.Count
 post A0.time = Unix($D.Time, 0)

fn extractEndPoint
 plain
 def R ResolveUDPAddr("udp", _)
 def IN A1 != nil && $R.R1 == nil
 case $IN && A1.Typ & 4 > 0
 ret 0 A1
 ret 1 $R.R0
 case $IN && A1.Typ & 4 <= 0 && CheckRelayIP(A0.IP, A1.Host) == nil
 ret 0 A1
 ret 1 $R.R0
 case A1 == nil
 ret 0 udpAddrToEndPoint(A0)
 ret 1 A0
 case A1 != nil && $R.R1 != nil
 ret 0 udpAddrToEndPoint(A0)
 ret 1 A0
 case $IN && A1.Typ & 4 <= 0 && CheckRelayIP(A0.IP, A1.Host) != nil
 ret 0 udpAddrToEndPoint(A0)
 ret 1 A0
`

const packSpec = `
fn pack
 plain
 ret 0 bytes 0; byte A1; PubByte(A0); A2; Sign(A0, A2)
 ret 1 Hash256(list(A2))

fn neighbors.serialize
 plain
 ret 0 Marshal(X).R0 where X obj Last = A0.last; Time = Unix(A0.time); Nodes = list each A0.endpoints : Serialize(*A0.endpoints[I]).R1 == nil ? Serialize(*A0.endpoints[I]).R0

fn neighbors.deserialize
 err 0
 def D out(Unmarshal(A1, _), _)
 ok Unmarshal(A1, _) == nil
 post A0.last = $D.Last
 post A0.time = Unix($D.Time, 0)
 post A0.endpoints = list each $D.Nodes : Deserialize(_, $D.Nodes[I]) == nil ? NEW
`

const expiredSpec = `
fn TYPE.expired
 plain
 case Now() < A0.time
 ret 0 false
 case Now() >= A0.time
 ret 0 iff Sub(Now(), A0.time) > 20000000000
`

const discBodySpec = `
fn TYPE.serialize
 plain
 def F Serialize(*A0.from)
 def T Serialize(*A0.to)
 alt F1 $F.R1 == nil ? $F.R0 : ZERO
 alt T1 $T.R1 == nil ? $T.R0 : ZERO
 alt FR A0.from == nil ? ZERO : $F1
 alt TO A0.to == nil ? ZERO : $T1
 ret 0 Marshal(X).R0 where X obj Net = A0.net; Ext = A0.ext; ECHOTime = Unix(A0.time); From = $FR; To = $TO
 ret 1 Marshal(X).R1 where X obj Net = A0.net; Ext = A0.ext; ECHOTime = Unix(A0.time); From = $FR; To = $TO

fn TYPE.deserialize
 err 0
 def D out(Unmarshal(A1, _), _)
 ok Unmarshal(A1, _) == nil
 post A0.net = $D.Net
 post A0.ext = $D.Ext
RECHO
 post A0.time = Unix($D.Time, 0)
 touch &A0.from
 touch &A0.to
`

const discNodeSpec = `
fn nodeFromPing
 plain
 def E extractEndPoint(A0.from, A0.message.body.from)
 skip panic
 ret 0.Node.ID A0.message.id
 ret 0.Node.EndPoint *$E.R0
 ret 0.Node.Net A0.message.body.net
 ret 0.Node.Ext A0.message.body.ext
 ret 0.addr $E.R1

fn nodeFromPong
 plain
 def E extractEndPoint(A0.from, A0.message.body.from)
 skip panic
 ret 0.Node.ID A0.message.id
 ret 0.Node.EndPoint *$E.R0
 ret 0.Node.Net A0.message.body.net
 ret 0.Node.Ext A0.message.body.ext
 ret 0.addr $E.R1

fn agent.pong
 err 0
 watch write
 ok udpAddr(A2).R1 == nil
 ok write(A0, X, udpAddr(A2).R0).R1 == nil
 mayfail true
 call write(A0, X, udpAddr(A2).R0)
`

const vnodeSpec = `
fn Bytes2NodeID
 err 1
 ok len(A0) == 32
 ret 0 bytes A0

fn EndPoint.Length
 plain
 case A0.Port == 8483
 ret 0 len(A0.Host) + 1
 case A0.Port != 8483
 ret 0 len(A0.Host) + 3

fn Node.Serialize
 plain
 ret 0 Marshal(X).R0 where X obj Id = bytes A0.ID; Hostname = A0.EndPoint.Host; HostType = A0.EndPoint.Typ; Port = A0.EndPoint.Port; Net = A0.Net; Ext = A0.Ext
 ret 1 Marshal(X).R1 where X obj Id = bytes A0.ID; Hostname = A0.EndPoint.Host; HostType = A0.EndPoint.Typ; Port = A0.EndPoint.Port; Net = A0.Net; Ext = A0.Ext

fn Node.Deserialize
 err 0
 def D out(Unmarshal(A1, _), _)
 ok Unmarshal(A1, _) == nil
 ok Bytes2NodeID($D.Id).R1 == nil
 post A0.ID = Bytes2NodeID($D.Id).R0
 post A0.EndPoint.Host = $D.Hostname
 post A0.EndPoint.Typ = $D.HostType
 post A0.EndPoint.Port = $D.Port
 post A0.Net = $D.Net
 post A0.Ext = $D.Ext
`

const endPointSpec = `
fn EndPoint.Deserialize
 err 0
 def N A1[0] >> 2
 ok len(A1) != 0
 ok $N != 0
 ok A1[0] & 1 > 0 || len(A1) >= $N + 1
 ok A1[0] & 1 <= 0 || len(A1) >= $N + 3
 case A1[0] & 2 > 0 && sub(A1, 1, $N + 1) != "localhost"
 post A0.Host = slice(A1, 1, $N + 1)
 post A0.Typ = 4
 touch &A0.Port
 case A1[0] & 2 > 0 && sub(A1, 1, $N + 1) == "localhost"
 post A0.Host = loopbackIP
 post A0.Typ = 1
 touch &A0.Port
 case A1[0] & 2 <= 0 && $N > 4
 post A0.Host = slice(A1, 1, $N + 1)
 post A0.Typ = 2
 touch &A0.Port
 case A1[0] & 2 <= 0 && $N <= 4
 post A0.Host = slice(A1, 1, $N + 1)
 post A0.Typ = 1
 touch &A0.Port
`

const netoolSpec = `
fn CheckRelayIP
 err 0
 ok len(A1) == 4 || len(A1) == 16
 ok !IsUnspecified(A1)
 ok !IsSpecialNetwork(A1)
 ok !IsLoopback(A1) || IsLoopback(A0)
 ok !IsLAN(A1) || IsLAN(A0)
`

const netHandSpec = `
fn handshaker.verifyHandshake
 err 0
 def T xor(Hash256(list(be64(A1.Timestamp))), A2)
 ok len(A1.Key) == 0 || VerifySig(A1.Key, $T, A1.Token).R1 == nil
 ok len(A1.Key) == 0 || VerifySig(A1.Key, $T, A1.Token).R0
 ok len(A1.Key) != 0 || A1.Token == $T

fn handshaker.getSecret
 err 1
 def S X25519ComputeSecret(ToX25519Sk(A0.peerKey), ToX25519Pk(A1))
 ok $S.R1 == nil
 ret 0 $S.R0

fn handshaker.doHandshake
 err 0
 ok A3.NetID == A0.netId
 ok A3.Genesis == A0.genesis

fn handshaker.ReceiveHandshake
 err 3
 def C CreateCodec(A0.codecFactory, A1)
 def H readHandshake(A0, $C)
 def S getSecret(A0, $H.R0.ID)
 ok !bannedAddr(A0, RemoteAddr(A1))
 ok $H.R2 == nil
 ok $S.R1 == nil
 ok verifyHandshake(A0, $H.R0, $S.R0) == nil
 ok doHandshake(A0, $C, _, $H.R0) == nil
 ok dyn(A0.onHandshaker, $C, _, $H.R0).R1 == nil
 ok sendHandshake(A0, $C, makeHandshake(A0, $S.R0), $H.R1) == nil
 ret 0 $C
 ret 1 $H.R0
 ret 2 dyn(A0.onHandshaker, $C, _, $H.R0).R0

fn handshaker.InitiateHandshake
 err 3
 def C CreateCodec(A0.codecFactory, A1)
 def H readHandshake(A0, $C)
 def S getSecret(A0, A2)
 ok $S.R1 == nil
 ok sendHandshake(A0, $C, makeHandshake(A0, $S.R0), 0) == nil
 ok $H.R2 == nil
 ok verifyHandshake(A0, $H.R0, $S.R0) == nil
 ok $H.R0.ID == A2
 ok doHandshake(A0, $C, _, $H.R0) == nil
 ok dyn(A0.onHandshaker, $C, _, $H.R0).R1 == nil
 ret 0 $C
 ret 1 $H.R0
 ret 2 dyn(A0.onHandshaker, $C, _, $H.R0).R0

fn handshaker.readHandshake
 err 2
 def M ReadMsg(A1)
 ok $M.R1 == nil
 ok $M.R0.Code == 2
 ok Deserialize(X, $M.R0.Payload) == nil
 ret 0 NEW
 ret 1 $M.R0.Id

fn HandshakeMsg.Serialize
 plain
 def O Marshal(X)
 ret 0 $O.R0 where X obj Version = A0.Version; NetId = A0.NetID; Name = A0.Name; ID = bytes A0.ID; Timestamp = A0.Timestamp; Genesis = bytes A0.Genesis; Height = A0.Height; Head = bytes A0.Head; FileAddress = A0.FileAddress; Key = A0.Key; Token = A0.Token; PublicAddress = A0.PublicAddress

fn HandshakeMsg.Deserialize
 err 0
 def D out(Unmarshal(A1, _), _)
 ok Unmarshal(A1, _) == nil
 ok Bytes2NodeID($D.ID).R1 == nil
 ok BytesToHash($D.Head).R1 == nil
 ok BytesToHash($D.Genesis).R1 == nil
 post A0.ID = Bytes2NodeID($D.ID).R0
 post A0.Version = $D.Version
 post A0.NetID = $D.NetId
 post A0.Name = $D.Name
 post A0.Timestamp = $D.Timestamp
 post A0.Height = $D.Height
 post A0.Head = BytesToHash($D.Head).R0
 post A0.Genesis = BytesToHash($D.Genesis).R0
 post A0.FileAddress = $D.FileAddress
 post A0.PublicAddress = $D.PublicAddress
 post A0.Key = $D.Key
 post A0.Token = $D.Token

fn defaultSyncConnectionFactory.receive
 err 1
 def C makeSyncConn(A0, A1)
 def M ReadMsg($C.c)
 def H out(deserialize(_, $M.R0.Payload), _)
 def S X25519ComputeSecret(ToX25519Sk(A0.peerKey), ToX25519Pk($H.id))
 def T xor(Hash256(list(be64($H.time))), $S.R0)
 ok $M.R1 == nil
 ok $M.R0.Code == 60
 ok deserialize(_, $M.R0.Payload) == nil
 ok $S.R1 == nil
 ok len($H.key) == 0 || VerifySig($H.key, $T, $H.token).R1 == nil
 ok len($H.key) == 0 || VerifySig($H.key, $T, $H.token).R0
 ok len($H.key) != 0 || $H.token == $T
 ok get(A0.peers, $H.id) != nil
 mayfail true
 ret 0 $C
 touch &makeSyncConn(A0, A1).peer
 touch &makeSyncConn(A0, A1).cacher

fn parseNodeExt
 plain
 case len(A0.Ext) < 96
 ret 1 false
 case len(A0.Ext) >= 96
 ret 1 Verify(sub(A0.Ext, nil, 32), A0.ID, sub(A0.Ext, 32, nil))
`

func runC35(c *Ctx) {
	dp := "net/discovery"
	run := func(pkg, text, rule string, opaque ...string) {
		for _, s := range parseSpecs(text) {
			c.specFn(c.Opts([]string{pkg}, opaque...), pkg, s, rule)
		}
	}
	run(dp, discMsgSpec, "packet", "VerifySig", "Bytes2NodeID", "decode", "Hash256", "pack", "serialize", "deserialize", "Deserialize", "Serialize", "CheckRelayIP", "udpAddrToEndPoint", "String", "ResolveUDPAddr")
	for _, t := range []string{"ping", "pong"} {
		text := strings.ReplaceAll(discBodySpec, "TYPE", t)
		if t == "ping" {
			text = strings.ReplaceAll(strings.ReplaceAll(text, "RECHO\n", ""), "ECHO", "")
		}
		run(dp, strings.ReplaceAll(strings.ReplaceAll(text, "RECHO", " post A0.echo = $D.Echo"), "ECHO", "Echo = A0.echo; "), "packet", "Deserialize", "Serialize")
	}
	for _, t := range []string{"ping", "pong", "findnode", "neighbors"} {
		run(dp, strings.ReplaceAll(expiredSpec, "TYPE", t), "age")
	}
	c.endPoints("net/vnode")
	run(dp, packSpec, "packet", "Sign", "PubByte", "Hash256", "Serialize", "Deserialize")
	c.relayed(dp)
	c.heard(dp)
	c.admission("net")
	run(dp, discNodeSpec, "node", "extractEndPoint", "write", "udpAddr")
	run("net/vnode", vnodeSpec, "node", "Bytes2NodeID")
	run("net/vnode", endPointSpec, "node", "Length")
	run("net/netool", netoolSpec, "node", "IsSpecialNetwork", "IsLAN")
	run("net", netHandSpec, "handshake", "VerifySig", "xor", "X25519ComputeSecret", "ToX25519Pk", "ToX25519Sk", "Hash256",
		"getSecret", "makeHandshake", "sendHandshake", "readHandshake", "verifyHandshake", "doHandshake", "bannedAddr", "banAddr", "Deserialize", "Bytes2NodeID", "BytesToHash", "get", "makeSyncConn", "deserialize", "Verify")
}

// relayed: the endpoints of a ping or pong are those of the packet, if they
// decode, and none otherwise.
func (c *Ctx) relayed(pkg string) {
	for _, t := range []string{"ping", "pong"} {
		fn := t + ".deserialize"
		n := 0
		x := c.pathsOf(pkg, fn, "Deserialize")
		if x.f == nil {
			continue
		}
		for _, p := range x.success(0) {
			n++
			for _, f := range [][2]string{{"from", "From"}, {"to", "To"}} {
				v := p.o.st.load(mkFA(param(0, x.f.Params[0].Type()), f[0], nil2))
				src := "out(Unmarshal(A1, _), _)." + f[1]
				ok, decoded := false, false
				for _, ev := range calls(p.Evs, "Deserialize") {
					if len(ev.Args) < 2 || !isT(ev.Args[1], src) || !p.isNilF(ev.Res, true) {
						continue
					}
					decoded = true
					ok = ok || ev.Args[0] == v
				}
				c.Ob(ok || !decoded && (v == kNil() || isT(v, "A0."+f[0])), "packet", fn, p.where(), "the %s endpoint is %s, which is not decoded from the %s field of the packet", f[0], trunc(v.String(), 80), f[1])
			}
		}
		c.Ob(n >= 2, "packet", fn, "", "no accepting path")
	}
}

// heard: a packet reaches its handler only when it is authentic, current and,
// for an answer, asked for.
func (c *Ctx) heard(pkg string) {
	n := 0
	for _, p := range c.pathsOf(pkg, "agent.readLoop", "unPacket expired rec retrievePacket String").all() {
		c.eachIter(p, func(q *Path) {
			for _, ev := range q.Evs {
				if ev.Kind != "call" && ev.Kind != "go" || ev.Name != "dyn" || len(ev.Args) != 2 || !isT(ev.Args[0], "A0.handler") {
					continue
				}
				n++
				r := q.with("P", ev.Args[1])
				r.Evs = q.Evs
				c.Ob(r.Holds("unPacket(sub(_, nil, ReadFromUDP(A0.socket, _).R0), P) == nil"), "heard", "agent.readLoop", q.where(), "handles a packet that was not verified")
				c.Ob(r.Holds("!expired(P.message.body)"), "heard", "agent.readLoop", q.where(), "handles a packet without looking at its age")
				for _, k := range []int64{1, 3} {
					cd := mkFA(ev.Args[1], "message", nil2)
					cd = q.o.st.load(mkFA(cd, "c", nil2))
					c.Ob(r.Holds("rec(A0.pool, P)") || !q.mayEq(cd, kInt(k)), "heard", "agent.readLoop", q.where(), "handles an answer (code %d) nobody asked for", k)
				}
			}
		})
	}
	c.Ob(n >= 2, "heard", "agent.readLoop", "", "no packet is handled")

	n = 0
	fn := "requestPoolImpl.rec"
	f := c.Func(pkg, fn)
	if f == nil {
		return
	}
	for _, p := range c.pathsOf(pkg, fn, "Filter String").all() {
		for _, ev := range calls(p.Evs, "Filter") {
			n++
			c.Ob(isT(ev.Args[0], "mapget(A0.pending, String(A1.from))"), "heard", fn, p.where(), "searches the requests %s, not those to the sender", trunc(ev.Args[0].String(), 60))
		}
	}
	for _, g := range nested(f, map[*ssa.Function]bool{}) {
		e := c.Opts([]string{pkg}, "Filter", "String")
		c.fns[g] = true
		for _, p := range c.all(c.Paths(e, g)) {
			walk := func(q *Path) {
				for _, ev := range calls(q.Evs, "handle") {
					n++
					pk := q.with("P", ev.Args[1])
					c.Ob(pk.Holds("_.expectCode == P.message.c"), "heard", fn, q.where(), "gives a packet to a request that expects another kind of message")
				}
			}
			walk(p)
			c.eachIter(p, walk)
		}
	}
	c.Ob(n >= 2, "heard", fn, "", "no request is searched")

	n = 0
	fn = "pingRequest.handle"
	for _, p := range c.pathsOf(pkg, fn, "receivePong done").all() {
		r, ok := kBoolOf(p.o.res[0])
		ends := ok && r
		for _, ev := range p.Evs {
			ends = ends || ev.Kind == "go"
		}
		if !ends || p.Holds("A2 != nil") {
			continue
		}
		n++
		c.Ob(p.Holds("A1.message.body.echo == A0.hash"), "heard", fn, p.where(), "a pong that does not echo the ping's hash answers it")
	}
	c.Ob(n >= 1, "heard", fn, "", "no pong is accepted")
}

// admission: who may become a peer.
func (c *Ctx) admission(pkg string) {
	fn := "net.authorize"
	ps := c.pathsOf(pkg, fn, "has countWithoutSBP inboundWithoutSBP isSBP String Hex PubkeyToAddress")
	const deny, allow = "A0.config.AccessDenyKeys", "A0.config.AccessAllowKeys"
	in := func(p *Path, l string) bool {
		return p.Holds("String(A3.ID) == "+l+"[_]") || p.Holds("Hex(A3.Key) == "+l+"[_]") || !p.Holds("A3.Key != nil") && p.Holds(l+`[_] == ""`)
	}
	n := 0
	for _, p := range ps.success(1) {
		n++
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "admission", fn, p.where(), f, a...) }
		w(p.Holds("A3.ID != A0.node.ID"), "admits itself")
		w(p.Holds("!has(A0.peers, A3.ID)"), "admits a peer that is connected already")
		empty := p.norm().Path.Holds("len(" + deny + ") == 0")
		w(empty || p.exhausted(deny, "String(A3.ID) != "+deny+"[I]"), "does not compare the node id with the whole deny list")
		w(empty || p.Holds("A3.Key == nil") || p.exhausted(deny, "Hex(A3.Key) != "+deny+"[I]"), "does not compare the key with the whole deny list")
		sup := p.Holds("isSBP(A0.finder, PubkeyToAddress(A3.Key))")
		room := p.Holds("countWithoutSBP(A0.peers) < A0.config.MaxPeers") && p.Holds("inboundWithoutSBP(A0.peers) < A0.config.MaxPeers / A0.config.MaxInboundRatio")
		w(sup || in(p, allow) || room && p.Holds(`A0.config.AccessControl == "any"`), "admits a peer that is neither producer nor listed, without room or with access restricted")
		r, ok := kBoolOf(p.o.res[0])
		if ok {
			w(r == sup, "superior is %v for a peer whose key is (not) a producer's", r)
		} else {
			w(isT(p.o.res[0], "isSBP(A0.finder, PubkeyToAddress(A3.Key))"), "superior is not whether the key is a producer's")
		}
	}
	c.Ob(n >= 4, "admission", fn, "", "no admitting path")
	n = 0
	for _, p := range ps.failure(1) {
		n++
		sup := p.Holds("isSBP(A0.finder, PubkeyToAddress(A3.Key))")
		full := p.Holds("countWithoutSBP(A0.peers) >= A0.config.MaxPeers") || p.Holds("inboundWithoutSBP(A0.peers) >= A0.config.MaxPeers / A0.config.MaxInboundRatio") || p.Holds(`A0.config.AccessControl != "any"`)
		c.Ob(p.Holds("A3.ID == A0.node.ID") || p.Holds("has(A0.peers, A3.ID)") || in(p, deny) || full && !sup && !in(p, allow), "admission", fn, p.where(), "refuses a peer for no reason of the rules: %s", p.Describe())
	}
	c.Ob(n >= 4, "admission", fn, "", "no refusing path")
}

// bits: a value put together from disjoint bits: the constant ones and the rest.
func bits(t *Term, k int64, rest []*Term) (int64, []*Term) {
	t = stripConv(t)
	if n, ok := i64(t); ok {
		return k | n, rest
	}
	if t.Op == "lin" {
		l := toLin(t)
		n, ok := constant.Int64Val(l.c)
		if ok && n != 0 && len(l.ks) == 1 {
			l.c = constant.MakeInt64(0)
			return k | n, append(rest, fromLin(l, t.Typ))
		}
	}
	if t.Op == "bin" && (t.Sym == "|" || t.Sym == "^") || t.Op == "|" {
		k, rest = bits(t.Args[0], k, rest)
		return bits(t.Args[1], k, rest)
	}
	return k, append(rest, t)
}

// endPoints: the bytes an endpoint is sent as, and the port read back.
func (c *Ctx) endPoints(pkg string) {
	fn := "EndPoint.Serialize"
	x := c.pathsOf(pkg, fn, "Length")
	n := 0
	for _, p := range x.success(1) {
		n++
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "endpoint", fn, p.where(), f, a...) }
		v := p.o.st.bytesVal(p.o.res[0])
		var lo, hi, val []*Term
		for ; v != nil && v.Op == "bytesw"; v = v.Args[0] {
			seen := false
			for _, l := range lo {
				seen = seen || l == v.Args[1]
			}
			if !seen {
				lo, hi, val = append(lo, v.Args[1]), append(hi, v.Args[2]), append(val, v.Args[3])
			}
		}
		var end *Term
		at := func(s string) *Term {
			for i, l := range lo {
				end = hi[i]
				if p.isV(l, s) {
					return stripConv(val[i])
				}
			}
			return nil
		}
		w(v != nil && p.isV(v, "zerobytes(Length(A0))"), "the buffer is not a fresh one of the endpoint's length: %v", v)
		w(p.Holds("len(A0.Host) != 0") && p.norm().Path.Holds("len(A0.Host) <= 63"), "encodes a host whose length does not fit the first byte")
		h := at("0")
		if h == nil {
			w(false, "the first byte is not set")
			continue
		}
		k, rest := bits(h, 0, nil)
		w(len(rest) == 1 && (p.isV(rest[0], "4 * len(A0.Host)") || isT(rest[0], "len(A0.Host) << 2")), "the first byte does not hold the host's length: %s", h)
		dom := p.Holds("A0.Typ == 4") || p.norm().Path.Holds("len(A0.Host) > 16")
		def := p.Holds("A0.Port == 8483")
		want := int64(0)
		if dom {
			want |= 2
		} else {
			w(p.Holds("A0.Typ != 4") && p.norm().Path.Holds("len(A0.Host) <= 16"), "it is not decided whether the host is a name")
		}
		if !def {
			want |= 1
			w(p.Holds("A0.Port != 8483"), "it is not decided whether the port is the default one")
			a, b := at("Length(A0) - 2"), at("Length(A0) - 1")
			w(a != nil && (b == nil && isT(a, "be16(A0.Port)") || b != nil && (isT(a, "A0.Port >> 8") || isT(a, "A0.Port / 256")) && isT(b, "A0.Port")), "the port is not at the end, high byte first: %v %v", a, b)
		}
		w(k == want, "the first byte has flags %d, not %d", k, want)
		hb := at("1")
		w(hb != nil && isT(hb, "A0.Host") && p.isV(end, "len(A0.Host) + 1"), "all of the host does not follow the first byte")
	}
	c.Ob(n >= 4, "endpoint", fn, "", "no encoding path")
	fn = "EndPoint.Deserialize"
	x = c.pathsOf(pkg, fn, "")
	n = 0
	for _, p := range x.success(0) {
		n++
		v := stripConv(p.o.st.load(mkFA(param(0, x.f.Params[0].Type()), "Port", nil2)))
		if p.norm().Path.Holds("A1[0] & 1 <= 0") || p.norm().Path.Holds("A1[0] & 1 == 0") {
			c.Ob(isT(v, "8483"), "endpoint", fn, p.where(), "the port of an endpoint that carries none is %s", v)
			continue
		}
		_, rest := bits(v, 0, nil)
		good := len(rest) == 1 && isT(rest[0], "rdbe16(_)")
		if len(rest) == 2 {
			for i := range rest {
				good = good || p.isV(rest[i], "256 * A1[(A1[0] >> 2) + 1]") && p.isV(rest[1-i], "A1[(A1[0] >> 2) + 2]")
				good = good || p.isV(rest[i], "256 * A1[len(A1) - 2]") && p.isV(rest[1-i], "A1[len(A1) - 1]")
			}
		}
		c.Ob(good, "endpoint", fn, p.where(), "the port is %s, not the two bytes after the host", v)
	}
	c.Ob(n >= 4, "endpoint", fn, "", "no decoding path")
}

// nested: the function, the functions of its package it calls and all the
// function literals in them.
func nested(f *ssa.Function, seen map[*ssa.Function]bool) []*ssa.Function {
	if f == nil || seen[f] {
		return nil
	}
	seen[f] = true
	out := []*ssa.Function{f}
	for _, g := range f.AnonFuncs {
		out = append(out, nested(g, seen)...)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg == f.Pkg {
					out = append(out, nested(g, seen)...)
				}
			}
		}
	}
	return out
}
