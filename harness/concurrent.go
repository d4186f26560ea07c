package main

import (
	"crypto/ed25519"
	"crypto/rand"
	"fmt"
	mrand "math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

// the reader installed while goroutines run: the recorded one would order them by its lock
var systemRand = rand.Reader

// group runs functions concurrently and hands on the first failure.
type group struct {
	wg    sync.WaitGroup
	mtx   sync.Mutex
	first *caseFailure
	gate  chan struct{}
}

func newGroup() *group { return &group{gate: make(chan struct{})} }

func (g *group) add(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			cf, ok := e.(caseFailure)
			if !ok {
				st := string(debug.Stack())
				if i := strings.Index(st, "\npanic("); i >= 0 {
					st = st[i+1:]
				}
				where := "the harness, on a value obtained from the library"
				if l := libFrame(st); l != "" {
					where = l
				}
				cf = caseFailure{text: fmt.Sprintf("panic: %v in %s", e, where), detail: clip(st, 4000)}
			}
			g.mtx.Lock()
			if g.first == nil {
				g.first = &cf
			}
			g.mtx.Unlock()
		}()
		<-g.gate
		f()
	}()
}

func (g *group) open() { close(g.gate) }

func (g *group) join() {
	g.wg.Wait()
	if g.first != nil {
		panic(*g.first)
	}
}

// ---- whole sessions ----

type peer struct {
	*Node
	in      chan *messages.Message
	workers int
	acc     []map[string]int // per worker: accepted "type<from"
	sent    [][]*messages.Message
	outs    []string
}

// concurrentSessions runs several sessions at once, every party driven by several
// goroutines, messages passed by reference.
func (c *Case) concurrentSessions(timeouts bool) {
	sign := c.Idx%2 == 0
	n := c.few()
	ids := c.ids(n)
	t := c.t(n)
	var k *Key
	signers := ids
	if sign {
		k = c.key(ids, t)
		signers = c.subset(ids, c.signers(n, t))
	}
	msg := c.Bytes(c.R.IntN(100))
	sessions := 1 + c.R.IntN(3)
	workers := 1 + c.R.IntN(3)
	rand.Reader = systemRand
	all := make([][]*peer, sessions)
	seeds := []uint64{}
	g := newGroup()
	quit := make(chan struct{})
	var left sync.WaitGroup
	for s := range all {
		for range signers {
			all[s] = append(all[s], &peer{in: make(chan *messages.Message, 8*n*n*workers), workers: workers})
		}
		for i, id := range signers {
			p := all[s][i]
			d := time.Duration(0)
			if timeouts {
				d = time.Duration(20_000 + c.R.IntN(3_000_000))
			}
			if sign {
				p.Node = c.signNode(k, signers, id, msg, d)
			} else {
				p.Node = c.keygenNode(id, signers, t, d)
			}
		}
	}
	dup := c.R.IntN(2)
	lag := c.R.IntN(3)
	// when timeouts may strike, everybody gives up after a while
	for s := range all {
		peers := all[s]
		for _, p := range peers {
			p := p
			p.acc = make([]map[string]int, workers)
			p.sent = make([][]*messages.Message, workers)
			left.Add(1)
			for w := 0; w < workers; w++ {
				w := w
				p.acc[w] = map[string]int{}
				seed := c.R.Uint64()
				seeds = append(seeds, seed)
				g.add(func() {
					r := mrand.New(mrand.NewPCG(seed, 1))
					process := func() {
						ms := p.St.ProcessAll()
						p.sent[w] = append(p.sent[w], ms...)
						for _, m := range ms {
							for _, q := range peers {
								for k := 0; k <= r.IntN(1+dup); k++ {
									q.in <- m
								}
							}
						}
					}
					process()
					for {
						select {
						case m := <-p.in:
							if lag > 0 && r.IntN(4) == 0 {
								runtime.Gosched()
							}
							if p.St.HandleMessage(m) == nil && m.From != p.ID && (m.IsBroadcast() || m.To == p.ID) {
								p.acc[w][fmt.Sprintf("%d<%d", m.Type, m.From)]++
							}
							if r.IntN(4) > 0 {
								process()
							} else {
								process()
								process()
							}
						case <-quit:
							return
						}
					}
				})
			}
			// one waits, one polls
			p.outs = make([]string, 2)
			g.add(func() {
				defer left.Done()
				if err := p.St.WaitForError(); err != nil {
					p.outs[0] = "error " + err.Error()
					return
				}
				p.outs[0] = outText(p.Node)
			})
			g.add(func() {
				<-p.St.Done()
				if err := p.St.Err(); err != nil {
					p.outs[1] = "error " + err.Error()
					return
				}
				p.outs[1] = outText(p.Node)
			})
			g.add(func() {
				was := false
				for i := 0; ; i++ {
					fin := p.St.IsFinished()
					if was && !fin {
						panic(caseFailure{text: fmt.Sprintf("party %d is no longer finished", p.ID)})
					}
					err := p.St.Err()
					if err != nil && !p.St.IsFinished() {
						panic(caseFailure{text: fmt.Sprintf("party %d has the error %v, but is not finished", p.ID, err)})
					}
					was = fin
					if fin {
						return
					}
					if i > 20 {
						time.Sleep(50 * time.Microsecond)
					}
				}
			})
		}
	}
	if sign {
		// the key material is used elsewhere at the same time
		g.add(func() { useKey(k, signers, msg) })
	}
	g.open()
	waited := make(chan struct{})
	go func() { left.Wait(); close(waited) }()
	<-waited
	close(quit)
	g.join()
	rand.Reader = c.Rand
	for s := range all {
		var good []*Node
		for _, p := range all[s] {
			c.Check(p.outs[0] == p.outs[1], "two readers of the outcome of party %d see different things: %s and %s", p.ID, clip(p.outs[0], 100), clip(p.outs[1], 100))
			acc := map[string]int{}
			for _, a := range p.acc {
				for m, v := range a {
					acc[m] += v
				}
			}
			for m, v := range acc {
				c.Check(v == 1, "party %d accepted message type<sender %s %d times", p.ID, m, v)
			}
			p.Sent = nil
			for _, ms := range p.sent {
				for _, m := range ms {
					b, err := m.MarshalBinary()
					c.Check(err == nil, "party %d emitted a message that cannot be encoded: %v", p.ID, err)
					p.Sent = append(p.Sent, b)
				}
			}
			o := c.observe(p.Node)
			c.Check(o.fin, "party %d has not ended", p.ID)
			if o.err == "" {
				c.emissions(p.Node, signers, sign)
				c.Check(len(acc) == 2*(len(signers)-1), "party %d succeeds with %d accepted messages", p.ID, len(acc))
				good = append(good, p.Node)
				c.Count("sessions that succeed", 1)
			} else {
				c.Check(timeouts, "party %d fails: %s", p.ID, o.err)
				c.Check(o.party == 0, "party %d blames %d though nobody cheated: %s", p.ID, o.party, o.err)
				c.Count("sessions that time out", 1)
			}
			c.Eval(4)
		}
		for _, x := range good {
			if sign {
				c.verifySig(k, msg, x.SG.Signature)
				c.Check(string(x.SG.Signature.ToEd25519()) == string(good[0].SG.Signature.ToEd25519()), "two signers obtain different signatures")
			} else {
				c.publicEqual(x.KG.Public, good[0].KG.Public, "two parties")
			}
		}
		if !sign && len(good) == n && n > 0 {
			c.checkKeygen(good, ids, t, 2)
		}
	}
	c.Count("goroutines", sessions*len(signers)*(workers+3))
	c.Seen(sign, timeouts, fp(signers), sessions, workers, seeds)
	c.Sample(map[string]any{"signers": fp(signers), "sessions": sessions, "workers per party": workers, "outcome": clip(all[0][0].outs[0], 80)})
}

// outText reads an output without any further synchronisation.
func outText(n *Node) string {
	if n.SG != nil {
		if n.SG.Signature == nil {
			return "no signature"
		}
		return fmt.Sprintf("%x", n.SG.Signature.ToEd25519())
	}
	if n.KG.Public == nil || n.KG.SecretKey == nil {
		return "no key"
	}
	s := fmt.Sprintf("%x %x %v %d", n.KG.Public.GroupKey.ToEd25519(), n.KG.SecretKey.Secret.Bytes(), n.KG.Public.PartyIDs, n.KG.Public.Threshold)
	for _, id := range n.KG.Public.PartyIDs {
		s += fmt.Sprintf(" %x", n.KG.Public.Shares[id].Bytes())
	}
	return s
}

// useKey reads everything of shared key material.
func useKey(k *Key, signers party.IDSlice, msg []byte) {
	sig := &eddsa.Signature{}
	b := make([]byte, 64)
	_ = sig.UnmarshalBinary(b)
	for i := 0; i < 3; i++ {
		_, _ = k.Public.MarshalJSON()
		_ = k.Public.GroupKey.ToEd25519()
		_ = k.Public.Equal(k.Public)
		k.Public.GroupKey.Verify(msg, sig)
		for _, id := range signers {
			s := k.Secrets[id]
			_, _ = s.MarshalJSON()
			_, _ = s.MarshalBinary()
			_ = s.Equal(s)
			_, _, _ = frost.NewSignState(signers, s, k.Public, msg, 0)
			_ = signers.Contains(id)
			_ = signers.Copy()
			_, _ = id.Lagrange(signers)
		}
		_ = signers.IsSubsetOf(k.Public.PartyIDs)
	}
}

// material uses the same key in many sessions at once, each driven by one goroutine.
func material(c *Case) {
	n := c.few()
	ids := c.ids(n)
	t := c.t(n)
	k := c.key(ids, t)
	// what several sessions share: lists, key material, the message
	signers := c.subset(ids, c.signers(n, t))
	msg := c.Bytes(64)
	m := 4 + c.R.IntN(5)
	g := newGroup()
	sigs := make([][]byte, m)
	rand.Reader = systemRand
	for i := 0; i < m; i++ {
		i := i
		kg := i%4 == 3
		g.add(func() {
			var nodes []*Node
			for _, id := range signers {
				if kg {
					s, o, err := frost.NewKeygenState(id, signers, party.Size(1), 0)
					if err != nil {
						panic(caseFailure{text: fmt.Sprintf("NewKeygenState fails: %v", err)})
					}
					nodes = append(nodes, &Node{ID: id, St: s, KG: o})
				} else {
					s, o, err := frost.NewSignState(signers, k.Secrets[id], k.Public, msg, 0)
					if err != nil {
						panic(caseFailure{text: fmt.Sprintf("NewSignState fails: %v", err)})
					}
					nodes = append(nodes, &Node{ID: id, St: s, SG: o})
				}
			}
			var q []*messages.Message
			for _, x := range nodes {
				q = append(q, x.St.ProcessAll()...)
			}
			for len(q) > 0 {
				m := q[0]
				q = q[1:]
				for _, x := range nodes {
					if m.From == x.ID || (m.To != 0 && m.To != x.ID) {
						continue
					}
					if err := x.St.HandleMessage(m); err != nil {
						panic(caseFailure{text: fmt.Sprintf("party %d refuses a message: %v", x.ID, err)})
					}
					q = append(q, x.St.ProcessAll()...)
				}
			}
			for _, x := range nodes {
				if !x.St.IsFinished() || x.St.Err() != nil {
					panic(caseFailure{text: fmt.Sprintf("party %d of a session run among others: finished=%v, %v", x.ID, x.St.IsFinished(), x.St.Err())})
				}
				if !kg {
					sigs[i] = x.SG.Signature.ToEd25519()
				}
			}
			useKey(k, signers, msg)
		})
	}
	g.open()
	g.join()
	rand.Reader = c.Rand
	seen := map[string]bool{}
	for _, s := range sigs {
		if s != nil {
			c.Check(ed25519.Verify(k.Public.GroupKey.ToEd25519(), msg, s), "a session run among others outputs an invalid signature")
			c.Check(!seen[string(s)], "two sessions output the same signature")
			seen[string(s)] = true
			c.Eval(1)
		}
	}
	c.Count("sessions on shared key material", m*len(signers))
	c.Seen("mat", fp(signers), m, c.Idx)
}

// instant lets several goroutines act at the very moment the timeout strikes.
func instant(c *Case) {
	sign := c.Idx%2 == 0
	n := c.few()
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	id := r.ids[c.R.IntN(len(r.ids))]
	ws, _ := c.script(r, id, c.R.IntN(3)/2)
	d := time.Duration(2 + c.R.Int64N(int64(time.Second)))
	hold := 1 + c.R.IntN(len(ws))
	workers := 2 + c.R.IntN(4)
	c.bubble(func() {
		x := c.freshT(r, id, d)
		x.step()
		for _, w := range ws[:len(ws)-hold] {
			_ = x.St.HandleMessage(c.mustDecode(w))
			x.step()
		}
		if x.done() {
			return
		}
		var ms []*messages.Message
		for _, w := range ws[len(ws)-hold:] {
			ms = append(ms, c.mustDecode(w))
		}
		var next atomic.Int64
		emitted := make([][]*messages.Message, workers)
		outs := make([]string, 2)
		g := newGroup()
		for w := 0; w < workers; w++ {
			w := w
			g.add(func() {
				time.Sleep(d)
				for {
					i := int(next.Add(1)) - 1
					if i >= len(ms) {
						return
					}
					_ = x.St.HandleMessage(ms[i])
					emitted[w] = append(emitted[w], x.St.ProcessAll()...)
					_ = x.St.IsFinished()
					_ = x.St.Err()
				}
			})
		}
		for i := range outs {
			i := i
			g.add(func() {
				var err error
				if i == 0 {
					err = x.St.WaitForError()
				} else {
					<-x.St.Done()
					err = x.St.Err()
				}
				if err != nil {
					outs[i] = "error " + err.Error()
				} else {
					outs[i] = outText(x)
				}
			})
		}
		g.open()
		time.Sleep(3 * d)
		synctest.Wait()
		g.join()
		o := c.observe(x)
		c.Check(o.fin, "party %d has not ended long after its timeout", id)
		c.Check(outs[0] == outs[1], "two readers of the outcome of party %d see different things: %s and %s", id, outs[0], outs[1])
		if o.err != "" {
			c.Check(outs[0] == "error "+o.err, "a reader of the outcome of party %d sees %s, it is %s", id, outs[0], o.err)
			c.Count("ends at the deadline: by error", 1)
		} else {
			c.Check(outs[0] == outText(x), "a reader of the outcome of party %d sees %s", id, outs[0])
			c.Count("ends at the deadline: by success", 1)
		}
		for _, e := range emitted {
			for _, m := range e {
				b, _ := m.MarshalBinary()
				x.Sent = append(x.Sent, b)
			}
		}
		seen := map[string]bool{}
		for _, w := range x.Sent {
			c.Check(!seen[wireName(w)], "party %d emits %s twice", id, wireName(w))
			seen[wireName(w)] = true
		}
		c.Eval(3)
		c.Seen("instant", sign, fp(r.ids), id, d, hold, workers)
	})
}

// ---- linearizability ----

type linIn struct {
	op   string // H, P, F, E, W
	typ  int    // 0 or 1: first or second round
	from int    // index among the others
	bad  bool
}

type linOut struct {
	ok   bool
	emit string
	err  bool
}

type linState struct {
	acc   [2]uint32
	bad   [2]bool
	round int // 0, 1, 2 running; 3 success; 4 abort
}

func linModel(others int, kg bool) porcupine.Model {
	full := uint32(1)<<others - 1
	return porcupine.Model{
		Init: func() any { return linState{} },
		Step: func(st, in, out any) (bool, any) {
			s, i, o := st.(linState), in.(linIn), out.(linOut)
			switch i.op {
			case "H":
				if s.round >= 3 || s.acc[i.typ]>>i.from&1 == 1 || s.round > i.typ+1 {
					return !o.ok, s
				}
				s.acc[i.typ] |= 1 << i.from
				s.bad[i.typ] = s.bad[i.typ] || i.bad
				return o.ok, s
			case "P":
				emit := ""
				for s.round < 3 {
					if s.round == 0 {
						emit += "1"
						s.round = 1
						continue
					}
					if s.acc[s.round-1] != full {
						break
					}
					if s.bad[s.round-1] {
						s.round = 4
						break
					}
					if s.round == 1 {
						emit += "2"
					}
					s.round++
				}
				return o.emit == emit, s
			case "F":
				return o.ok == (s.round >= 3), s
			case "E":
				return o.err == (s.round == 4), s
			case "W":
				return s.round >= 3 && o.err == (s.round == 4), s
			}
			return false, s
		},
		Equal:             func(a, b any) bool { return a.(linState) == b.(linState) },
		DescribeOperation: func(i, o any) string { return fmt.Sprintf("%+v -> %+v", i, o) },
	}
}

func linear(c *Case) {
	sign := c.Idx%2 == 0
	n := c.few()
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	id := r.ids[c.R.IntN(len(r.ids))]
	nbad := 0
	if c.R.IntN(3) == 0 {
		nbad = 1
	}
	idx := map[party.ID]int{}
	for _, j := range r.ids {
		if j != id {
			idx[j] = len(idx)
		}
	}
	ws, _ := c.script(r, id, nbad)
	good := map[string]bool{}
	for _, w := range r.in[id] {
		good[string(w)] = true
	}
	workers := 2 + c.R.IntN(3)
	x := c.fresh(r, id)
	type job struct {
		in linIn
		m  *messages.Message
	}
	plans := make([][]job, workers)
	h := func(w []byte) job {
		ty := 0
		if wType(w) == tKG2 || wType(w) == tSG2 {
			ty = 1
		}
		return job{linIn{op: "H", typ: ty, from: idx[wFrom(w)], bad: !good[string(w)]}, c.mustDecode(w)}
	}
	var jobs []job
	for _, w := range ws {
		jobs = append(jobs, h(w), job{in: linIn{op: "P"}})
		if c.R.IntN(3) == 0 {
			jobs = append(jobs, h(w))
		}
	}
	for k := 2 + c.R.IntN(4); k > 0; k-- {
		jobs = append(jobs, job{in: linIn{op: []string{"F", "E", "P"}[c.R.IntN(3)]}})
	}
	// nearby jobs go to different workers
	for i := range jobs {
		j := i + c.R.IntN(min(6, len(jobs)-i))
		jobs[i], jobs[j] = jobs[j], jobs[i]
	}
	for i, j := range jobs {
		w := (i + c.R.IntN(2)) % workers
		plans[w] = append(plans[w], j)
	}
	yields := c.R.IntN(3)
	logs := make([][]porcupine.Operation, workers+1)
	var emitted []*messages.Message
	var emtx sync.Mutex
	begin := time.Now()
	g := newGroup()
	for w := range plans {
		w := w
		seed := c.R.Uint64()
		g.add(func() {
			rr := mrand.New(mrand.NewPCG(seed, 2))
			for _, j := range plans[w] {
				for k := rr.IntN(1 + yields*3); k > 0; k-- {
					runtime.Gosched()
				}
				var o linOut
				var ms []*messages.Message
				a := time.Since(begin)
				switch j.in.op {
				case "H":
					o.ok = x.St.HandleMessage(j.m) == nil
				case "P":
					ms = x.St.ProcessAll()
				case "F":
					o.ok = x.St.IsFinished()
				case "E":
					o.err = x.St.Err() != nil
				}
				b := time.Since(begin)
				last := -1
				for _, m := range ms {
					k := 1
					if int(m.Type) == tKG2 || int(m.Type) == tSG2 {
						k = 2
					}
					if k != last {
						o.emit += fmt.Sprint(k)
					}
					last = k
				}
				if len(ms) > 0 {
					emtx.Lock()
					emitted = append(emitted, ms...)
					emtx.Unlock()
				}
				logs[w] = append(logs[w], porcupine.Operation{ClientId: w, Input: j.in, Call: int64(a), Output: o, Return: int64(b)})
			}
		})
	}
	rand.Reader = x.Rand
	g.open()
	g.join()
	rand.Reader = c.Rand
	// the rest, one after the other
	seq := func(in linIn, f func() linOut) {
		a := time.Since(begin)
		o := f()
		logs[workers] = append(logs[workers], porcupine.Operation{ClientId: workers, Input: in, Call: int64(a), Output: o, Return: int64(time.Since(begin))})
	}
	rand.Reader = x.Rand
	seq(linIn{op: "P"}, func() linOut {
		ms := x.St.ProcessAll()
		emitted = append(emitted, ms...)
		o := linOut{}
		last := -1
		for _, m := range ms {
			k := 1
			if int(m.Type) == tKG2 || int(m.Type) == tSG2 {
				k = 2
			}
			if k != last {
				o.emit += fmt.Sprint(k)
			}
			last = k
		}
		return o
	})
	rand.Reader = c.Rand
	seq(linIn{op: "F"}, func() linOut { return linOut{ok: x.St.IsFinished()} })
	seq(linIn{op: "E"}, func() linOut { return linOut{err: x.St.Err() != nil} })
	var hist []porcupine.Operation
	for _, l := range logs {
		hist = append(hist, l...)
	}
	overlaps := 0
	for i := range hist {
		for j := range hist[:i] {
			if hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
				overlaps++
			}
		}
	}
	res := porcupine.CheckOperationsTimeout(linModel(len(idx), !sign), hist, 20*time.Second)
	if res == porcupine.Illegal {
		var b strings.Builder
		for _, o := range hist {
			fmt.Fprintf(&b, "worker %d [%d,%d] %+v -> %+v\n", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		panic(caseFailure{text: fmt.Sprintf("the calls on the session of party %d cannot be ordered one after the other", id), detail: clip(b.String(), 5000)})
	}
	if res == porcupine.Unknown {
		c.Count("histories not decided in time", 1)
	} else {
		c.Count("histories found linearizable", 1)
	}
	for _, m := range emitted {
		b, err := m.MarshalBinary()
		c.Check(err == nil, "party %d emits a message that cannot be encoded", id)
		x.Sent = append(x.Sent, b)
	}
	c.Check(x.done(), "party %d has not ended", id)
	if nbad == 0 {
		c.finished4(r, x, "concurrent")
		c.sameWires(r, x)
	} else {
		c.Check(x.St.Err() != nil, "party %d succeeds in spite of a bad message", id)
	}
	c.Count("overlapping pairs of calls", overlaps)
	c.Count("calls in histories", len(hist))
	c.Eval(1)
	order := ""
	for _, o := range hist {
		order += fmt.Sprint(o.ClientId, o.Input, o.Output, ";")
	}
	c.Seen("lin", sign, order)
	c.Sample(map[string]any{"calls": len(hist), "overlapping pairs": overlaps, "workers": workers})
}

func init() {
	register(&Prop{ID: "C14", Bubble: true, Rule: "an execution counts if goroutines worked on the same sessions or key material under the race detector and the outcome was compared with the sequential meaning; distinct by parties, number of goroutines and their seeds or calls",
		Parts: []Part{
			{Name: "sessions", Quick: 240, Thorough: 20000, Fn: func(c *Case) { c.concurrentSessions(false) }},
			{Name: "sizes", Quick: 29, Thorough: 3000, Fn: allSizes(func(c *Case) { c.concurrentSessions(false) })},
			{Name: "timeouts", Quick: 240, Thorough: 20000, Fn: func(c *Case) { c.concurrentSessions(true) }},
			{Name: "material", Quick: 120, Thorough: 10000, Fn: material},
			{Name: "instant", Quick: 320, Thorough: 30000, Fn: instant},
			{Name: "linear", Quick: 600, Thorough: 60000, Fn: linear},
		},
		Least: map[string]int64{"sessions that succeed": 300, "sessions that time out": 50, "histories found linearizable": 500, "overlapping pairs of calls": 500, "sessions on shared key material": 500},
	})
}
