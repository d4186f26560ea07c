package main

import (
	"crypto/ed25519"
	"crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// message types on the wire
const (
	tKG1 = 1
	tKG2 = 2
	tSG1 = 3
	tSG2 = 4
)

// ---- conversions between the library's types and the reference's ----

func scBig(s *ristretto.Scalar) *big.Int { return ref.LE(s.Bytes()) }

func bigSc(x *big.Int) *ristretto.Scalar {
	s, err := ristretto.NewScalar().SetCanonicalBytes(ref.ToLE(ref.SMod(x)))
	if err != nil {
		panic(err)
	}
	return s
}

func elPt(c *Case, e *ristretto.Element) *ref.Point {
	p, ok := ref.Decode(e.Bytes())
	c.Check(ok, "an element encodes to bytes that are not a ristretto255 encoding: %x", e.Bytes())
	return p
}

func ptEl(p *ref.Point) *ristretto.Element {
	var e ristretto.Element
	if _, err := e.SetCanonicalBytes(p.Encode()); err != nil {
		panic(fmt.Sprintf("a valid ristretto255 encoding (%x) is not decoded: %v", p.Encode(), err))
	}
	return &e
}

func (c *Case) scalar() *big.Int { return ref.SMod(ref.LE(c.Bytes(64))) }

func id64(ids []party.ID) []int64 {
	out := make([]int64, len(ids))
	for i, id := range ids {
		out[i] = int64(id)
	}
	return out
}

func be16(x party.ID) []byte { return binary.BigEndian.AppendUint16(nil, uint16(x)) }

// ---- wires ----

func wType(w []byte) int      { return int(w[0]) }
func wFrom(w []byte) party.ID { return party.ID(binary.BigEndian.Uint16(w[1:])) }
func wTo(w []byte) party.ID   { return party.ID(binary.BigEndian.Uint16(w[3:])) }

func wire(typ int, from, to party.ID, payload ...[]byte) []byte {
	b := append([]byte{byte(typ)}, be16(from)...)
	b = append(b, be16(to)...)
	for _, p := range payload {
		b = append(b, p...)
	}
	return b
}

func decodeMsg(w []byte) (*messages.Message, error) {
	var m messages.Message
	if err := m.UnmarshalBinary(append([]byte{}, w...)); err != nil {
		return nil, err
	}
	return &m, nil
}

func (c *Case) mustDecode(w []byte) *messages.Message {
	m, err := decodeMsg(w)
	c.Check(err == nil, "a well-formed message is refused by the decoder: %v: %x", err, w)
	return m
}

func wireName(w []byte) string {
	return fmt.Sprintf("%s %d>%d", []string{"?", "KG1", "KG2", "SG1", "SG2"}[wType(w)%5], wFrom(w), wTo(w))
}

// ---- configurations ----

// ids draws a sorted set of n distinct non-zero IDs, of various shapes.
func (c *Case) ids(n int) party.IDSlice {
	m := map[party.ID]bool{}
	shape := c.R.IntN(7)
	if shape == 5 && n > 400 {
		shape = 1 // too few such values
	}
	base := 1 + c.R.IntN(65535)
	special := []int{1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 1024, 4095, 4096, 32767, 32768, 32769, 65279, 65280, 65281, 65534, 65535}
	next := 1
	for len(m) < n {
		var x int
		switch shape {
		case 0: // 1..n
			x = next
			next++
		case 1: // anywhere
			x = 1 + c.R.IntN(65535)
		case 2: // consecutive from somewhere
			x = (base+next-1)%65535 + 1
			next++
		case 3: // boundary values
			if len(m) < len(special)-2 {
				x = special[c.R.IntN(len(special))]
			} else {
				x = 1 + c.R.IntN(65535)
			}
		case 4: // small
			x = 1 + c.R.IntN(4*n)
		case 5: // multiples of 256 (low byte 0) and neighbours
			x = 256*(1+c.R.IntN(255)) + []int{0, 0, 0, 1, 255}[c.R.IntN(5)]
		case 6: // top of the range
			x = 65535 - c.R.IntN(3*n)
		}
		if x >= 1 && x <= 65535 {
			m[party.ID(x)] = true
		}
	}
	return sortedIDs(m)
}

func sortedIDs(m map[party.ID]bool) party.IDSlice {
	out := make([]party.ID, 0, len(m))
	for id := range m {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// subset draws a sorted subset of k elements.
func (c *Case) subset(ids party.IDSlice, k int) party.IDSlice {
	p := c.R.Perm(len(ids))[:k]
	sort.Ints(p)
	out := make(party.IDSlice, k)
	for i, j := range p {
		out[i] = ids[j]
	}
	return out
}

// n draws a number of parties: mostly small, sometimes up to max.
func (c *Case) size(min, max int) int {
	if c.forced > 0 {
		return c.forced
	}
	switch c.R.IntN(10) {
	case 0:
		return min
	case 1, 2:
		return min + c.R.IntN(max-min+1)
	}
	hi := min + 4
	if hi > max {
		hi = max
	}
	return min + c.R.IntN(hi-min+1)
}

// message draws a message to sign.
func (c *Case) message() []byte {
	switch c.R.IntN(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return c.Bytes(1)
	case 3:
		return c.Bytes([]int{63, 64, 65, 111, 112, 127, 128, 129}[c.R.IntN(8)])
	case 4:
		if c.R.IntN(6) == 0 {
			return c.Bytes(100000 + c.R.IntN(100000))
		}
		if c.R.IntN(2) == 0 {
			// around the sizes of blocks and buffers
			n := 1 << (5 + c.R.IntN(12))
			if c.R.IntN(3) == 0 {
				n *= 1 + c.R.IntN(3)
			}
			n += c.R.IntN(5) - 2
			if c.R.IntN(2) == 0 {
				n = n / 32 * 32
			}
			return c.Bytes(n)
		}
		if c.R.IntN(30) == 0 {
			return c.Bytes(1<<20 + c.R.IntN(1<<20))
		}
		return c.Bytes(2000 + c.R.IntN(3000))
	case 5:
		return make([]byte, c.R.IntN(64))
	}
	return c.Bytes(c.R.IntN(200))
}

// few is a small number of parties, t a threshold for n parties, and signers how many of them sign.
func (c *Case) few() int {
	if c.forced > 0 {
		return c.forced
	}
	return 2 + c.R.IntN(3)
}

func (c *Case) t(n int) int {
	if n > 12 {
		if c.R.IntN(4) > 0 {
			return 1 + c.R.IntN(4)
		}
		return 1 + c.R.IntN(min(n-1, 16))
	}
	return 1 + c.R.IntN(n-1)
}

func (c *Case) signers(n, t int) int {
	if c.forced > 0 && c.R.IntN(2) == 0 {
		return n
	}
	return t + 1 + c.R.IntN(n-t)
}

// allSizes makes a part whose cases have all numbers of parties from 6 to 34.
func allSizes(f func(*Case)) func(*Case) {
	return func(c *Case) {
		c.forced = 6 + c.Idx%29
		f(c)
	}
}

// Key is a key shared by the reference's dealer, by the helpers, or by a keygen session.
type Key struct {
	IDs     party.IDSlice
	T       int
	Public  *eddsa.Public
	Secrets map[party.ID]*eddsa.SecretShare
	How     string
}

// refDeal shares a key with the reference implementation.
func (c *Case) refDeal(ids party.IDSlice, t int) *Key {
	coef := make([]*big.Int, t+1)
	for i := range coef {
		coef[i] = c.scalar()
	}
	k := &Key{IDs: ids, T: t, Secrets: map[party.ID]*eddsa.SecretShare{}, How: "reference dealer"}
	pub := map[party.ID]*ristretto.Element{}
	for _, id := range ids {
		s := ref.Poly(coef, big.NewInt(int64(id)))
		k.Secrets[id] = eddsa.NewSecretShare(id, bigSc(s))
		pub[id] = ptEl(ref.MulBase(s))
	}
	var err error
	k.Public, err = eddsa.NewPublic(pub, party.Size(t))
	c.Check(err == nil, "NewPublic refuses consistent shares: %v", err)
	return k
}

func (c *Case) helperDeal(ids party.IDSlice, t int) *Key {
	_, sec := helpers.GenerateSecrets(ids, party.Size(t))
	return &Key{IDs: ids, T: t, Secrets: sec, Public: helpers.GeneratePublic(party.Size(t), sec), How: "helpers"}
}

// keygenDeal runs an in-order keygen.
func (c *Case) keygenDeal(ids party.IDSlice, t int) *Key {
	ns := c.keygenNodes(ids, t, 0)
	c.run(ns, plan{strategy: "fifo"})
	k := &Key{IDs: ids, T: t, Secrets: map[party.ID]*eddsa.SecretShare{}, How: "keygen"}
	for _, n := range ns {
		c.Check(n.St.Err() == nil, "honest keygen fails at party %d: %v", n.ID, n.St.Err())
		c.Check(n.KG.Public != nil && n.KG.SecretKey != nil, "honest keygen of party %d has no output", n.ID)
		k.Public = n.KG.Public
		k.Secrets[n.ID] = n.KG.SecretKey
	}
	return k
}

func (c *Case) key(ids party.IDSlice, t int) *Key {
	switch c.R.IntN(4) {
	case 0:
		if len(ids) <= 8 {
			return c.keygenDeal(ids, t)
		}
	case 1:
		return c.helperDeal(ids, t)
	}
	return c.refDeal(ids, t)
}

// secret interpolates the group secret with the reference.
func (k *Key) secret() *big.Int {
	ids := k.IDs[:k.T+1]
	ys := []*big.Int{}
	for _, id := range ids {
		ys = append(ys, scBig(&k.Secrets[id].Secret))
	}
	return ref.Interpolate(id64(ids), ys, new(big.Int))
}

// ---- nodes ----

// Node is one party running the library.
type Node struct {
	ID   party.ID
	St   *state.State
	KG   *keygen.Output
	SG   *sign.Output
	Rand io.Reader  // if set, installed as crypto/rand.Reader during its calls
	Sent [][]byte   // everything it emitted
	Recv []Delivery // everything it was given
	c    *Case
}

type Delivery struct {
	Wire []byte
	Err  error
}

func (c *Case) keygenNode(id party.ID, ids party.IDSlice, t int, timeout time.Duration) *Node {
	s, out, err := frost.NewKeygenState(id, ids, party.Size(t), timeout)
	c.Check(err == nil && s != nil && out != nil, "NewKeygenState(%d, %v, %d) fails: %v", id, ids, t, err)
	return &Node{ID: id, St: s, KG: out, c: c}
}

func (c *Case) keygenNodes(ids party.IDSlice, t int, timeout time.Duration) []*Node {
	var ns []*Node
	for _, id := range ids {
		ns = append(ns, c.keygenNode(id, ids, t, timeout))
	}
	return ns
}

func (c *Case) signNode(k *Key, signers party.IDSlice, id party.ID, msg []byte, timeout time.Duration) *Node {
	s, out, err := frost.NewSignState(signers, k.Secrets[id], k.Public, msg, timeout)
	c.Check(err == nil && s != nil && out != nil, "NewSignState(%v, %d) fails: %v", signers, id, err)
	return &Node{ID: id, St: s, SG: out, c: c}
}

func (c *Case) signNodes(k *Key, signers party.IDSlice, msg []byte, timeout time.Duration) []*Node {
	var ns []*Node
	for _, id := range signers {
		ns = append(ns, c.signNode(k, signers, id, msg, timeout))
	}
	return ns
}

func (n *Node) swap() func() {
	if n.Rand == nil {
		return func() {}
	}
	old := rand.Reader
	rand.Reader = n.Rand
	return func() { rand.Reader = old }
}

// step calls ProcessAll and encodes what it returns.
func (n *Node) step() [][]byte {
	ms := n.stepMsgs()
	var out [][]byte
	for _, m := range ms {
		n.c.Check(m != nil, "party %d emits a nil message", n.ID)
		b, err := m.MarshalBinary()
		n.c.Check(err == nil, "party %d emits a message that cannot be encoded: %v", n.ID, err)
		out = append(out, b)
	}
	n.Sent = append(n.Sent, out...)
	return out
}

func (n *Node) stepMsgs() []*messages.Message {
	defer n.swap()()
	ms := n.St.ProcessAll()
	n.c.Count("ProcessAll calls", 1)
	n.c.Count("messages emitted", len(ms))
	return ms
}

// handle hands a wire to HandleMessage.
func (n *Node) handle(w []byte) error {
	m := n.c.mustDecode(w)
	err := n.St.HandleMessage(m)
	n.c.Count("HandleMessage calls", 1)
	n.Recv = append(n.Recv, Delivery{w, err})
	n.c.refusal(err, n.ID, m.From)
	return err
}

var (
	reCulprit = regexp.MustCompile(`(?i)culprit:? *([0-9]+)`)
	reParty   = regexp.MustCompile(`(?i)^party:? *([0-9]+)`)
)

// refusal checks whom the error of HandleMessage blames, if it blames anybody: nobody but the
// sender of the message.
func (c *Case) refusal(err error, self, from party.ID) {
	if err == nil {
		return
	}
	c.Count("refused messages", 1)
	var se *state.Error
	if errors.As(err, &se) && se != nil {
		c.Check(se.PartyID == 0 || se.PartyID == from, "party %d refuses a message from %d and blames %d: %v", self, from, se.PartyID, err)
	}
	if m := reCulprit.FindStringSubmatch(err.Error()); m != nil {
		c.Check(m[1] == fmt.Sprint(from), "party %d refuses a message from %d and names another culprit: %v", self, from, err)
		c.Count("refusals that name the culprit", 1)
	}
	if m := reParty.FindStringSubmatch(err.Error()); m != nil {
		c.Check(m[1] == fmt.Sprint(self) || m[1] == fmt.Sprint(from), "party %d refuses a message from %d and names another party: %v", self, from, err)
	}
}

// deliver is the documented driver: HandleMessage, then ProcessAll.
func (n *Node) deliver(w []byte) ([][]byte, error) {
	err := n.handle(w)
	return n.step(), err
}

func (n *Node) done() bool { return n.St.IsFinished() }

// stateErr returns the attributed error of a session.
func (n *Node) stateErr() *state.Error {
	err := n.St.Err()
	if err == nil {
		return nil
	}
	var se *state.Error
	if errors.As(err, &se) {
		return se
	}
	var sv state.Error
	if errors.As(err, &sv) {
		return &sv
	}
	n.c.Fail("the error of party %d is not a *state.Error: %T %v", n.ID, err, err)
	return nil
}

func (n *Node) empty() bool {
	if n.KG != nil {
		return n.KG.Public == nil && n.KG.SecretKey == nil
	}
	return n.SG.Signature == nil
}

// ---- network ----

type plan struct {
	strategy string
	victim   party.ID // for "starve", "late"
	batch    bool     // several HandleMessage before a ProcessAll
	toSelf   bool     // broadcasts also reach their sender, unicasts everybody
	onEvent  func(n *Node, w []byte, err error)
}

type envelope struct {
	to int // index of the node
	w  []byte
}

var strategies = []string{"fifo", "lifo", "random", "starve", "late", "burst", "bysender"}

func (c *Case) plan(ns []*Node) plan {
	return plan{
		strategy: strategies[c.R.IntN(len(strategies))],
		victim:   ns[c.R.IntN(len(ns))].ID,
		batch:    c.R.IntN(4) == 0,
		toSelf:   c.R.IntN(2) == 0,
	}
}

func (p plan) String() string {
	return fmt.Sprintf("%s/%d batch=%v self=%v", p.strategy, p.victim, p.batch, p.toSelf)
}

// run delivers all messages of the nodes (and those already in extra) according to the plan
// until nothing is left to deliver. It returns the schedule, as a string.
func (c *Case) run(ns []*Node, p plan, extra ...[]byte) string {
	var pend []envelope
	var sched strings.Builder
	started := make([]bool, len(ns))
	dirty := make([]bool, len(ns))
	push := func(ws [][]byte) {
		for _, w := range ws {
			for i, n := range ns {
				if p.toSelf || ((wTo(w) == 0 || wTo(w) == n.ID) && wFrom(w) != n.ID) {
					pend = append(pend, envelope{i, w})
				}
			}
		}
	}
	push(extra)
	for i := range ns {
		pend = append(pend, envelope{i, nil})
	}
	limit := 400000
	for steps := 0; ; steps++ {
		if steps > limit {
			c.Fail("the parties keep emitting messages: %d deliveries", steps)
		}
		if len(pend) == 0 {
			// process what a batching driver still owes
			any := false
			for i, n := range ns {
				if dirty[i] {
					dirty[i], any = false, true
					push(n.step())
				}
			}
			if any {
				continue
			}
			break
		}
		k := c.pick(pend, ns, p, started)
		e := pend[k]
		pend[k] = pend[len(pend)-1]
		if p.strategy == "fifo" || p.strategy == "lifo" {
			// keep the order
			pend[k] = e
			copy(pend[k:], pend[k+1:])
		}
		pend = pend[:len(pend)-1]
		n := ns[e.to]
		started[e.to] = true
		if e.w == nil {
			fmt.Fprintf(&sched, "%d:start ", n.ID)
			push(n.step())
			if p.onEvent != nil {
				p.onEvent(n, nil, nil)
			}
			continue
		}
		fmt.Fprintf(&sched, "%d:%d<%d ", n.ID, wType(e.w), wFrom(e.w))
		if p.batch && c.R.IntN(2) == 0 {
			err := n.handle(e.w)
			dirty[e.to] = true
			if p.onEvent != nil {
				p.onEvent(n, e.w, err)
			}
			continue
		}
		out, err := n.deliver(e.w)
		dirty[e.to] = false
		push(out)
		if p.onEvent != nil {
			p.onEvent(n, e.w, err)
		}
	}
	return sched.String()
}

// pick chooses the next event.
func (c *Case) pick(pend []envelope, ns []*Node, p plan, started []bool) int {
	// cand draws uniformly among the events that satisfy f, or among all
	cand := func(f func(e envelope) bool) int {
		best, seen := -1, 0
		for i, e := range pend {
			if f(e) {
				seen++
				if c.R.IntN(seen) == 0 {
					best = i
				}
			}
		}
		if best < 0 {
			return c.R.IntN(len(pend))
		}
		return best
	}
	switch p.strategy {
	case "fifo":
		return 0
	case "lifo":
		return len(pend) - 1
	case "starve":
		return cand(func(e envelope) bool { return ns[e.to].ID != p.victim })
	case "late": // the victim starts last, others deliver to it before it starts
		return cand(func(e envelope) bool { return !(ns[e.to].ID == p.victim && e.w == nil) })
	case "burst": // serve one node until nothing is left for it
		last := int(p.victim) % len(ns)
		return cand(func(e envelope) bool { return e.to == last || c.R.IntN(20) == 0 })
	case "bysender": // one sender's messages are slow
		return cand(func(e envelope) bool { return e.w == nil || wFrom(e.w) != p.victim })
	}
	return c.R.IntN(len(pend))
}

// ---- oracles shared by several properties ----

// verifySig checks a signature with crypto/ed25519 and with the reference.
func (c *Case) verifySig(k *Key, msg []byte, sig *eddsa.Signature) {
	pub := k.Public.GroupKey.ToEd25519()
	raw := sig.ToEd25519()
	c.Check(len(raw) == 64 && len(pub) == 32, "wrong lengths: %d byte signature, %d byte key", len(raw), len(pub))
	c.Check(ed25519.Verify(pub, msg, raw), "crypto/ed25519 rejects the signature %x of %q under %x", raw, clip(string(msg), 40), []byte(pub))
	c.Check(ref.VerifyEd(pub, msg, raw), "the reference rejects the signature %x", raw)
	c.Check(k.Public.GroupKey.Verify(msg, sig), "PublicKey.Verify rejects the signature %x", raw)
}

func fp(ids party.IDSlice) string { return fmt.Sprint([]party.ID(ids)) }
