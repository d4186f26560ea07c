package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// span is a range of memory.
type span struct{ lo, hi uintptr }

// walker visits all memory that can be reached by typed references.
type walker struct {
	skip    []span // memory of the caller, not entered
	seen    map[string]bool
	visit   func(path string, b []byte)
	objects int
	bytes   int
	opaque  []opaque // functions and buffered channels
	unread  int
	spans   []span
	keep    []reflect.Value // copies stay alive, so that no address is used twice
	real    bool            // do not visit the copies themselves, whose memory is the walker's
}

func newWalker(visit func(string, []byte)) *walker {
	return &walker{seen: map[string]bool{}, visit: visit}
}

func (w *walker) skipped(p unsafe.Pointer, n uintptr) bool {
	a := uintptr(p)
	for _, s := range w.skip {
		if a >= s.lo && a < s.hi {
			return true
		}
	}
	return false
}

// block visits n bytes at p, which hold count values of type t.
func (w *walker) block(path string, t reflect.Type, p unsafe.Pointer, count int) {
	n := t.Size() * uintptr(count)
	if p == nil || n == 0 || w.skipped(p, n) {
		return
	}
	key := fmt.Sprintf("%x/%v/%d", uintptr(p), t, count)
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	w.objects++
	w.bytes += int(n)
	w.spans = append(w.spans, span{uintptr(p), uintptr(p) + n})
	w.visit(path, unsafe.Slice((*byte)(p), n))
	for i := 0; i < count; i++ {
		q := path
		if count > 1 {
			q = fmt.Sprintf("%s[%d]", path, i)
		}
		w.refs(q, t, unsafe.Add(p, uintptr(i)*t.Size()))
	}
}

func scalarKind(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return true
	}
	return false
}

// refs follows the references inside the value of type t at p.
func (w *walker) refs(path string, t reflect.Type, p unsafe.Pointer) {
	if scalarKind(t) {
		return
	}
	v := reflect.NewAt(t, p).Elem()
	switch t.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			w.block(path, t.Elem(), v.UnsafePointer(), 1)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			w.block(path, t.Elem(), v.UnsafePointer(), v.Cap())
		}
	case reflect.String:
		if s := v.String(); len(s) > 0 {
			w.block(path, reflect.TypeFor[byte](), unsafe.Pointer(unsafe.StringData(s)), len(s))
		}
	case reflect.Array:
		if scalarKind(t.Elem()) {
			return
		}
		for i := 0; i < t.Len(); i++ {
			w.refs(fmt.Sprintf("%s[%d]", path, i), t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			w.refs(path+"."+f.Name, f.Type, unsafe.Add(p, f.Offset))
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		w.value(path, v.Elem())
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			w.value(path+".key", it.Key())
			w.value(fmt.Sprintf("%s[%v]", path, it.Key()), it.Value())
		}
	case reflect.Func, reflect.UnsafePointer:
		if !v.IsZero() {
			w.opaque = append(w.opaque, opaque{path, closure(p)})
		}
	case reflect.Chan:
		if !v.IsZero() && v.Cap() > 0 {
			w.opaque = append(w.opaque, opaque{path, v.Pointer()})
		}
	}
}

// value visits a value that has no address of its own.
func (w *walker) value(path string, v reflect.Value) {
	c := reflect.New(v.Type())
	c.Elem().Set(v)
	w.keep = append(w.keep, c)
	if v.Kind() == reflect.Pointer || w.real {
		w.refs(path, v.Type(), c.UnsafePointer())
		return
	}
	w.block(path, v.Type(), c.UnsafePointer(), 1)
}

// reach collects the memory reachable from the given values.
func reach(vs ...any) []span {
	var out []span
	w := newWalker(func(_ string, b []byte) {
		a := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
		out = append(out, span{a, a + uintptr(len(b))})
	})
	w.real = true
	for _, v := range vs {
		if v != nil && !(reflect.ValueOf(v).Kind() == reflect.Pointer && reflect.ValueOf(v).IsNil()) {
			w.value("", reflect.ValueOf(v))
		}
	}
	return out
}

// secrets are byte patterns with their meaning.
type secrets map[uint64][]pattern

type pattern struct {
	b    []byte
	name string
}

func (s secrets) add(b []byte, name string) {
	k := binary.LittleEndian.Uint64(b)
	s[k] = append(s[k], pattern{b, name})
}

// scalar adds the usual representations of a secret scalar.
func (s secrets) scalar(x *big.Int, name string) {
	if x.BitLen() < 64 {
		return
	}
	le := ref.ToLE(x)
	s.add(le, name)
	be := make([]byte, 32)
	for i := range le {
		be[i] = le[31-i]
	}
	s.add(be, name+", big endian")
	s.add([]byte(hex.EncodeToString(le)), name+", in hex")
	s.add([]byte(b64(le)), name+", in base64")
}

type hit struct{ path, name string }

// search looks for the secrets in everything reachable from root but the caller's memory.
func (s secrets) search(root any, skip []span) (hits []hit, w *walker) {
	w = newWalker(func(path string, b []byte) {
		for i := 0; i+8 <= len(b); i++ {
			for _, p := range s[binary.LittleEndian.Uint64(b[i:])] {
				if len(b)-i >= len(p.b) && string(b[i:i+len(p.b)]) == string(p.b) {
					hits = append(hits, hit{path, p.name})
				}
			}
		}
	})
	w.skip = skip
	w.value("session", reflect.ValueOf(root))
	w.untyped()
	return
}

// drawn adds the scalars that follow from the randomness read so far, in the way the library
// makes scalars but however it reads their 64 bytes, and the raw bytes.
func (s secrets) drawn(d *drbg, from int) {
	var all []byte
	for _, b := range d.Log[from:] {
		all = append(all, b...)
	}
	for o := 0; o+64 <= len(all); o += 16 {
		s.scalar(ref.SMod(ref.LE(all[o:o+64])), fmt.Sprintf("random scalar %d.%d", from, o))
	}
	for o := 0; o+16 <= len(all); o += 16 {
		s.add(all[o:o+16:o+16], fmt.Sprintf("bytes of random string %d.%d", from, o))
	}
}

func wipeCase(c *Case) {
	sign := c.Idx%2 == 0
	n := c.size(2, 5)
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	id := r.ids[c.R.IntN(len(r.ids))]
	spoilt, stall := 0, -1
	kind := c.Idx / 2 % 3
	ws, bad := [][]byte(nil), []string(nil)
	switch kind {
	case 1:
		spoilt = 1 + c.R.IntN(2)
	case 2:
		stall = c.R.IntN(len(r.in[id]) + 1)
	}
	ws, bad = c.script(r, id, spoilt)
	if kind == 2 && c.R.IntN(2) == 0 {
		ws = r.in[id]
		stall = len(ws)/2 + c.R.IntN(len(ws)-len(ws)/2)
	}
	c.bubble(func() {
		d := newDRBG(r.seeds[id])
		d.Keep = true
		timeout := time.Second
		x := c.freshT(r, id, timeout)
		x.Rand = d
		pats := secrets{}
		var mine []any // objects of the caller
		if sign {
			mine = append(mine, r.k.Public, r.k.Secrets, r.msg, r.ids)
			pats.scalar(scBig(&r.k.Secrets[id].Secret), "the key share")
			pats.scalar(ref.SMul(ref.Lagrange(int64(id), id64(r.ids)), scBig(&r.k.Secrets[id].Secret)), "the weighted key share")
		} else {
			mine = append(mine, r.ids)
		}
		look := func(stage string) {
			if !x.done() && len(r.in[id]) > 10 && c.R.IntN(len(r.in[id])) > 4 {
				return // of a long session, only some stages
			}
			hits, w := pats.search(x.St, reach(append(append([]any{}, mine...), x.KG, x.SG)...))
			c.Count("objects visited", w.objects)
			c.Count("bytes searched", w.bytes)
			c.Check(w.objects > 3, "harness: only %d objects reachable", w.objects)
			c.Eval(1)
			if !x.done() {
				for _, h := range hits {
					c.Count("found while running: "+generic(h.name), 1)
					c.Count("secrets found while running", 1)
				}
				return
			}
			for _, h := range hits {
				c.Fail("after the session of party %d ended (%v) at stage %s, %s still contains %s", id, x.St.Err(), stage, h.path, h.name)
			}
			c.Count("sessions searched after the end", 1)
		}
		logged := 0
		process := func() {
			ms := x.stepMsgs()
			for _, m := range ms {
				mine = append(mine, m)
			}
			if len(d.Log) > logged {
				pats.drawn(d, logged)
				if logged == 0 && !sign {
					c.keygenSecrets(pats, d, r, ws, x)
				}
				logged = len(d.Log)
			}
		}
		start := c.R.IntN(len(ws) + 1)
		if c.R.IntN(2) == 0 {
			start = 0
		}
		stage := "created"
		for i := 0; i <= len(ws); i++ {
			if i == start {
				process()
				stage = "started"
				look(stage)
			}
			if i == len(ws) || i == stall || x.done() {
				break
			}
			var m messages.Message
			c.Check(m.UnmarshalBinary(ws[i]) == nil, "harness: message not decoded")
			mine = append(mine, &m)
			_ = x.St.HandleMessage(&m)
			stage += " " + wireName(ws[i])
			if i >= start && c.R.IntN(5) > 0 {
				process()
			}
			look(stage)
		}
		if stall < 0 && !x.done() {
			process()
		}
		if !x.done() {
			time.Sleep(timeout + 1)
			synctest.Wait()
			stage += " timeout"
		}
		c.Check(x.done(), "party %d has not ended", id)
		look(stage)
		e := x.stateErr()
		switch {
		case e == nil:
			c.Count("ended: success", 1)
		case e.PartyID == 0:
			c.Count(fmt.Sprintf("ended: timeout in round %d", e.RoundNumber), 1)
		default:
			c.Count(fmt.Sprintf("ended: abort in round %d", e.RoundNumber), 1)
		}
		// a late look, after more calls
		for _, w := range ws {
			_ = x.St.HandleMessage(c.mustDecode(w))
		}
		x.step()
		look(stage + " later")
		c.Seen(sign, fp(r.ids), id, stage)
		c.Sample(map[string]any{"party": id, "ids": fp(r.ids), "spoilt": bad, "stages": clip(stage, 300), "patterns": len(pats)})
	})
}

func generic(s string) string {
	for i, ch := range s {
		if ch >= '0' && ch <= '9' {
			return s[:i] + "…"
		}
	}
	return s
}

// keygenSecrets adds the own share and the partial sums of the final secret share.
func (c *Case) keygenSecrets(pats secrets, d *drbg, r *record4, ws [][]byte, x *Node) {
	// the shares this party deals follow from what it sent when the session was recorded
	var ids []int64
	var ys []*big.Int
	for _, w := range r.sent[x.ID] {
		if wType(w) == tKG2 && len(ids) <= r.t {
			ids = append(ids, int64(wTo(w)))
			ys = append(ys, ref.LE(w[5:]))
		}
	}
	var own *big.Int
	coefs := []*big.Int{}
	for _, b := range d.Log {
		if len(b) == 64 && len(coefs) <= r.t {
			coefs = append(coefs, ref.SMod(ref.LE(b)))
		}
	}
	if len(ids) >= r.t+1 {
		own = ref.Interpolate(ids, ys, big.NewInt(int64(x.ID)))
	} else if len(coefs) == r.t+1 {
		// n-1 shares do not determine a polynomial of degree n-1: use the drawn coefficients
		own = ref.Poly(coefs, big.NewInt(int64(x.ID)))
	} else {
		return
	}
	pats.scalar(own, "its share of its own polynomial")
	var shares []*big.Int
	for _, w := range ws {
		if wType(w) == tKG2 {
			shares = append(shares, ref.LE(w[5:]))
		}
	}
	if len(shares) > 6 {
		// too many subsets: each share alone, all but one, the order of the parties and of arrival, both ways
		total := own
		for _, y := range shares {
			total = ref.SAdd(total, y)
		}
		pats.scalar(total, "its secret share")
		for _, y := range shares {
			pats.scalar(ref.SAdd(own, y), "a partial sum of its secret share")
			pats.scalar(ref.SSub(total, y), "a partial sum of its secret share")
		}
		var kg2 [][]byte
		for _, w := range ws {
			if wType(w) == tKG2 {
				kg2 = append(kg2, w)
			}
		}
		for range 2 {
			s := own
			for _, w := range kg2 {
				s = ref.SAdd(s, ref.LE(w[5:]))
				pats.scalar(s, "a partial sum of its secret share")
				pats.scalar(ref.SAdd(ref.SSub(total, s), own), "a partial sum of its secret share")
			}
			sort.Slice(kg2, func(i, j int) bool { return wFrom(kg2[i]) < wFrom(kg2[j]) })
		}
		return
	}
	for m := 1; m < 1<<len(shares); m++ {
		s := own
		for i, y := range shares {
			if m>>i&1 == 1 {
				s = ref.SAdd(s, y)
			}
		}
		what := "a partial sum of its secret share"
		if m == 1<<len(shares)-1 {
			what = "its secret share"
		}
		pats.scalar(s, what)
	}
}

// foreignKey ends signing sessions with a signature that is not valid although every share
// is: all signers use the same public data, whose group key is not that of the shares.
func foreignKey(c *Case) {
	n := c.size(2, 5)
	ids := c.ids(n)
	t := c.t(n)
	k := c.refDeal(ids, t)
	p := *k.Public
	p.GroupKey = eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(c.scalar())))
	k.Public = &p
	signers := c.subset(ids, c.signers(n, t))
	msg := c.message()
	ns := c.signNodes(k, signers, msg, 0)
	for _, x := range ns {
		d := newDRBG(c.seed32())
		d.Keep = true
		x.Rand = d
	}
	sched := c.run(ns, c.plan(ns))
	for _, x := range ns {
		c.Check(x.done() && x.St.Err() != nil, "party %d: finished=%v, %v in a session whose signature is not valid", x.ID, x.done(), x.St.Err())
		pats := secrets{}
		pats.drawn(x.Rand.(*drbg), 0)
		pats.scalar(scBig(&k.Secrets[x.ID].Secret), "the key share")
		pats.scalar(ref.SMul(ref.Lagrange(int64(x.ID), id64(signers)), scBig(&k.Secrets[x.ID].Secret)), "the weighted key share")
		hits, w := pats.search(x.St, reach(k.Public, k.Secrets, signers, msg, x.SG))
		for _, h := range hits {
			c.Fail("after the session of party %d ended (%v), %s still contains %s", x.ID, x.St.Err(), h.path, h.name)
		}
		c.Count("objects visited", w.objects)
		c.Count("sessions searched after the end", 1)
		c.Count("ended: invalid signature", 1)
		c.Eval(1)
	}
	c.Seen("foreign", fp(signers), t, sched)
}

func init() {
	register(&Prop{ID: "C16", Bubble: true, Rule: "an execution counts if the memory reachable from the session was searched after its end and, while it ran, its secrets were found by the same search; distinct by protocol, parties and stages",
		Parts: []Part{
			{Name: "endings", Quick: 1600, Thorough: 120000, Fn: wipeCase},
			{Name: "invalid", Quick: 160, Thorough: 12000, Fn: foreignKey},
			{Name: "sizes", Quick: 232, Thorough: 20000, Fn: allSizes(wipeCase)},
			{Name: "sizes invalid", Quick: 58, Thorough: 4000, Fn: allSizes(foreignKey)},
			{Name: "crowds", Quick: 192, Thorough: 20000, Fn: wipedCrowd},
		},
		Least: map[string]int64{"sessions searched after the end": 2000, "ended: success": 300, "secrets found while running": 3000,
			"ended: abort in round 1": 50, "ended: abort in round 2": 50, "ended: timeout in round 0": 20, "ended: timeout in round 1": 50, "ended: timeout in round 2": 30, "ended: invalid signature": 200},
	})
}
