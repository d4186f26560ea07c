package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// C23: the state machine drives rounds of a protocol made for the purpose, which check online
// that they are called as the Round interface promises.

type fault struct {
	round, call int // the call-th ProcessMessage of the round; -1: its GenerateMessages
	culprit     party.ID
	own         bool // the culprit is the sender of the message
}

func (f fault) String() string { return fmt.Sprintf("%d/%d culprit %d", f.round, f.call, f.culprit) }

var errInjected = errors.New("injected error")

// contract is the online monitor of one session.
type contract struct {
	c      *Case
	self   party.ID
	ids    party.IDSlice
	types  []messages.MessageType
	rounds int
	fault  *fault
	out    [][]*messages.Message // what GenerateMessages of each round returns
	yield  func()

	active atomic.Int32
	mtx    sync.Mutex
	cur    int // running round
	phase  int // 0: messages, 1: generated, 2: asked for the next round
	got    map[party.ID]bool
	calls  int // ProcessMessage calls of this round
	resets int
	failed bool
	culp   party.ID
	emit   []*messages.Message // what was generated since the driver last looked
	given  map[messages.MessageType]map[party.ID][][]byte
	bad    string
	hist   []string
}

type monRound struct {
	*state.BaseRound
	m *contract
	k int
}

func (m *contract) fail(format string, a ...any) {
	if m.bad == "" {
		m.bad = fmt.Sprintf(format, a...)
	}
}

// enter is called by each monitored method.
func (m *contract) enter(r *monRound, what string) func() {
	n := m.active.Add(1)
	m.mtx.Lock()
	m.hist = append(m.hist, fmt.Sprintf("%s%d", what, r.k))
	if n != 1 {
		m.fail("%s of round %d is called while another method runs", what, r.k)
	}
	if m.resets > 0 && what != "R" {
		m.fail("%s of round %d is called after the clean-up", what, r.k)
	}
	if m.failed && what != "R" {
		m.fail("%s of round %d is called after a round failed", what, r.k)
	}
	if what != "R" && r.k != m.cur {
		if r.k == m.cur+1 && m.phase == 2 {
			m.cur, m.phase, m.got, m.calls = r.k, 0, map[party.ID]bool{}, 0
		} else {
			m.fail("%s of round %d is called in round %d, phase %d", what, r.k, m.cur, m.phase)
		}
	}
	m.c.Count("monitored round calls", 1)
	m.mtx.Unlock()
	if m.yield != nil {
		m.yield()
	}
	return func() { m.active.Add(-1) }
}

func (r *monRound) ProcessMessage(msg *messages.Message) *state.Error {
	m := r.m
	defer m.enter(r, "P")()
	m.mtx.Lock()
	defer m.mtx.Unlock()
	if m.phase != 0 {
		m.fail("round %d is handed a message after it generated its own", r.k)
	}
	var from party.ID
	if r.k == 0 {
		if msg != nil {
			m.fail("round 0, which takes no messages, is handed %v from %d", msg.Type, msg.From)
		}
	} else if msg == nil {
		m.fail("round %d is handed a nil message", r.k)
	} else {
		from = msg.From
		if msg.Type != m.types[r.k] {
			m.fail("round %d is handed a message of type %d instead of %d", r.k, msg.Type, m.types[r.k])
		}
		if msg.From == m.self || !has(m.ids, msg.From) {
			m.fail("round %d is handed a message from %d", r.k, msg.From)
		}
		if m.got[msg.From] {
			m.fail("round %d is handed two messages from %d", r.k, msg.From)
		}
		m.got[msg.From] = true
		b, err := msg.MarshalBinary()
		ok := false
		for _, g := range m.given[msg.Type][msg.From] {
			ok = ok || bytes.Equal(g, b)
		}
		if err != nil || !ok {
			m.fail("round %d is handed a message from %d which was not accepted from it: %x", r.k, msg.From, b)
		}
		m.c.Count("messages handed to rounds", 1)
	}
	m.calls++
	if f := m.fault; f != nil && f.round == r.k && f.call == m.calls-1 {
		m.failed = true
		m.culp = f.culprit
		if f.own {
			m.culp = from
		}
		return state.NewError(m.culp, errInjected)
	}
	return nil
}

func (r *monRound) GenerateMessages() ([]*messages.Message, *state.Error) {
	m := r.m
	defer m.enter(r, "G")()
	m.mtx.Lock()
	defer m.mtx.Unlock()
	if m.phase != 0 {
		m.fail("round %d is asked for its messages twice", r.k)
	}
	if r.k > 0 && len(m.got) != len(m.ids)-1 {
		m.fail("round %d is asked for its messages with %d of %d messages", r.k, len(m.got), len(m.ids)-1)
	}
	m.phase = 1
	if f := m.fault; f != nil && f.round == r.k && f.call == -1 {
		m.failed, m.culp = true, f.culprit
		if m.c.Idx%2 == 0 {
			return m.out[r.k], state.NewError(m.culp, errInjected)
		}
		return nil, state.NewError(m.culp, errInjected)
	}
	m.emit = append(m.emit, m.out[r.k]...)
	return m.out[r.k], nil
}

func (r *monRound) NextRound() state.Round {
	m := r.m
	defer m.enter(r, "N")()
	m.mtx.Lock()
	defer m.mtx.Unlock()
	if m.phase == 0 {
		m.fail("round %d is asked for its successor before it generated its messages", r.k)
	}
	m.phase = 2
	if r.k == m.rounds-1 {
		return nil
	}
	return &monRound{r.BaseRound, m, r.k + 1}
}

func (r *monRound) Reset() {
	m := r.m
	defer m.enter(r, "R")()
	m.mtx.Lock()
	defer m.mtx.Unlock()
	m.resets++
	cur := m.cur
	if m.phase == 2 && cur < m.rounds-1 {
		cur++
	}
	if r.k != cur {
		m.fail("the clean-up is that of round %d, but the session is in round %d", r.k, cur)
	}
	if m.resets > 1 {
		m.fail("the clean-up runs %d times", m.resets)
	}
}

func (r *monRound) AcceptedMessageTypes() []messages.MessageType {
	return append([]messages.MessageType{}, r.m.types...)
}

// newContract draws a protocol and a plan of faults.
func (c *Case) newContract(faults bool) (*contract, *monRound) {
	n := 1 + c.R.IntN(6)
	m := &contract{c: c, ids: c.ids(n), given: map[messages.MessageType]map[party.ID][][]byte{}, got: map[party.ID]bool{}}
	m.self = m.ids[c.R.IntN(n)]
	m.types = []messages.MessageType{messages.MessageTypeNone}
	for _, t := range c.R.Perm(4)[:c.R.IntN(5)] {
		m.types = append(m.types, messages.MessageType(t+1))
	}
	m.rounds = len(m.types)
	if c.R.IntN(5) == 0 {
		m.rounds = 1 + c.R.IntN(m.rounds)
	}
	for k := 0; k < m.rounds; k++ {
		var out []*messages.Message
		if k+1 < m.rounds {
			for j := c.R.IntN(3); j > 0; j-- {
				out = append(out, c.mustDecode(c.roundWire(m, m.types[k+1], m.self, m.ids[c.R.IntN(n)])))
			}
		}
		m.out = append(m.out, out)
	}
	if faults && c.R.IntN(2) != 0 {
		f := &fault{round: max(c.R.IntN(m.rounds), c.R.IntN(m.rounds)), call: -1}
		if n > 1 && c.R.IntN(2) == 0 {
			f.call = c.R.IntN(n - 1)
			f.own = f.round > 0 && c.R.IntN(2) == 0
		}
		if c.R.IntN(3) != 0 {
			f.culprit = m.ids[c.R.IntN(n)]
		}
		m.fault = f
	}
	base, err := state.NewBaseRound(m.self, m.ids)
	c.Check(err == nil && base != nil, "NewBaseRound(%d, %s) fails: %v", m.self, fp(m.ids), err)
	c.Check(base.SelfID() == m.self && base.PartyIDs().Equal(m.ids), "NewBaseRound(%d, %s) gives the base round of %d of %s", m.self, fp(m.ids), base.SelfID(), fp(base.PartyIDs()))
	return m, &monRound{base, m, 0}
}

// roundWire is a well-formed message with a content of its own.
func (c *Case) roundWire(m *contract, typ messages.MessageType, from, to party.ID) []byte {
	if typ != tKG2 {
		to = 0
	}
	return wire(int(typ), from, to, c.encPayload(int(typ)))
}

// offer is called before the message is handed over.
func (m *contract) offer(w []byte) {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	t := messages.MessageType(w[0])
	if m.given[t] == nil {
		m.given[t] = map[party.ID][][]byte{}
	}
	m.given[t][wFrom(w)] = append(m.given[t][wFrom(w)], w)
}

func (m *contract) withdraw(w []byte) {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	g := m.given[messages.MessageType(w[0])]
	g[wFrom(w)] = g[wFrom(w)][:len(g[wFrom(w)])-1]
}

// needed: the messages of the rounds that take some.
func (c *Case) needed(m *contract) [][]byte {
	var ws [][]byte
	for k := 1; k < len(m.types); k++ {
		for _, id := range m.ids {
			if id != m.self {
				ws = append(ws, c.roundWire(m, m.types[k], id, m.self))
			}
		}
	}
	return ws
}

// foreign draws a message that must not reach a round.
func (c *Case) foreign(m *contract) []byte {
	outsider := c.id()
	for has(m.ids, outsider) {
		outsider = c.id()
	}
	typ := messages.MessageType(1 + c.R.IntN(4))
	other := outsider
	if len(m.ids) > 1 && c.R.IntN(3) != 0 {
		for other = m.self; other == m.self; {
			other = m.ids[c.R.IntN(len(m.ids))]
		}
	}
	switch c.R.IntN(5) {
	case 0:
		return c.roundWire(m, typ, m.self, other)
	case 1:
		return c.roundWire(m, typ, outsider, m.self)
	case 2: // for somebody else
		return wire(tKG2, other, outsider, c.encPayload(tKG2))
	case 3:
		return wire(tKG2, m.self, m.self, c.encPayload(tKG2))
	}
	// a type which is not of the protocol
	for _, t := range c.R.Perm(4) {
		in := false
		for _, u := range m.types {
			in = in || u == messages.MessageType(t+1)
		}
		if !in {
			return c.roundWire(m, messages.MessageType(t+1), other, m.self)
		}
	}
	return c.roundWire(m, typ, outsider, m.self)
}

func (m *contract) verdict(s *state.State, hist string) {
	fin := s.IsFinished()
	err := s.Err()
	m.mtx.Lock()
	defer m.mtx.Unlock()
	c := m.c
	c.Check(m.bad == "", "%s; %d rounds, types %v, parties %s, own %d, fault %v; calls %s; history %s", m.bad, m.rounds, m.types, fp(m.ids), m.self, m.fault, strings.Join(m.hist, " "), clip(hist, 500))
	if fin {
		c.Check(m.resets == 1, "the session is over and the clean-up ran %d times; calls %s; history %s", m.resets, strings.Join(m.hist, " "), clip(hist, 500))
		if m.failed {
			var e *state.Error
			c.Check(errors.As(err, &e) && e.PartyID == m.culp && e.RoundNumber == m.cur && strings.Contains(err.Error(), errInjected.Error()), "round %d fails with culprit %d, the session with %v", m.cur, m.culp, err)
		} else if m.cur == m.rounds-1 && m.phase == 2 {
			// (an interface that holds a nil pointer is an error as well)
			c.Check(err == nil, "all %d rounds are done and the session has the error %#v; history %s", m.rounds, err, clip(hist, 500))
			c.Check(s.WaitForError() == nil, "all %d rounds are done and WaitForError gives an error; history %s", m.rounds, clip(hist, 500))
		} else if err == nil {
			c.Check(m.cur == m.rounds-1 && m.phase == 2, "the session succeeds in round %d of %d; history %s", m.cur, m.rounds, clip(hist, 500))
		}
	} else {
		c.Check(m.resets == 0, "the clean-up ran before the session is over; calls %s", strings.Join(m.hist, " "))
		c.Check(!m.failed, "a round failed and the session is not over; calls %s; history %s", strings.Join(m.hist, " "), clip(hist, 500))
		c.Check(!(m.cur == m.rounds-1 && m.phase == 2), "the last round is over and the session is not; calls %s", strings.Join(m.hist, " "))
	}
	c.Eval(1)
}

func sameMessages(a, b []*messages.Message) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, e1 := a[i].MarshalBinary()
		y, e2 := b[i].MarshalBinary()
		if e1 != nil || e2 != nil || !bytes.Equal(x, y) {
			return false
		}
	}
	return true
}

// roundHistories: one driver, virtual time.
func roundHistories(c *Case) {
	c.bubble(func() {
		m, r0 := c.newContract(true)
		var timeout time.Duration
		if c.R.IntN(3) == 0 {
			timeout = time.Duration(1 + c.R.IntN(5_000_000_000))
		}
		s, err := state.NewBaseState(r0, timeout)
		c.Check(err == nil && s != nil, "NewBaseState fails: %v", err)
		hist := ""
		accepted := map[messages.MessageType]map[party.ID]bool{}
		var last time.Time = time.Now()
		complete := func() bool { // the current round has its messages
			if m.cur == 0 && m.phase == 0 {
				return true
			}
			k := m.cur
			if m.phase == 2 {
				k++
			}
			return k < m.rounds && len(accepted[m.types[k]]) == len(m.ids)-1
		}
		process := func() {
			hist += " process"
			wasDone := s.IsFinished()
			due := !wasDone && complete()
			before := len(m.hist)
			m.emit = nil
			out := s.ProcessAll()
			switch {
			case wasDone:
				c.Check(len(out) == 0 && len(m.hist) == before, "ProcessAll runs rounds or returns messages after the end; history %s", clip(hist, 500))
			case due:
				c.Check(len(m.hist) > before, "ProcessAll does nothing although round %d has its messages; calls %s; history %s", m.cur, strings.Join(m.hist, " "), clip(hist, 500))
				c.Count("rounds begun", 1)
			}
			if !m.failed {
				c.Check(sameMessages(out, m.emit), "ProcessAll returns %d messages, its rounds generated %d; calls %s", len(out), len(m.emit), strings.Join(m.hist, " "))
			} else if !wasDone {
				c.Check(len(out) <= len(m.emit) && sameMessages(out, m.emit[:len(out)]), "ProcessAll returns messages its rounds did not generate; calls %s", strings.Join(m.hist, " "))
			}
			m.verdict(s, hist)
			if !s.IsFinished() {
				c.Check(!complete(), "ProcessAll leaves round %d, which has its messages; calls %s; history %s", m.cur, strings.Join(m.hist, " "), clip(hist, 500))
			}
		}
		give := func(w []byte, good bool) {
			hist += fmt.Sprintf(" %d<%d", w[0], wFrom(w))
			msg := c.mustDecode(w)
			before := len(m.hist)
			t, from := messages.MessageType(w[0]), wFrom(w)
			if good {
				// still to be taken?
				k := 0
				for i, u := range m.types {
					if u == t {
						k = i
					}
				}
				open := m.cur < k || (m.cur == k && m.phase == 0)
				fresh := !s.IsFinished() && open && !accepted[t][from]
				if fresh {
					m.offer(w)
				} else {
					hist += "~"
				}
				err := s.HandleMessage(msg)
				if fresh {
					c.Check(err == nil, "message %d from %d is refused in round %d: %v; history %s", t, from, m.cur, err, clip(hist, 500))
					if accepted[t] == nil {
						accepted[t] = map[party.ID]bool{}
					}
					accepted[t][from] = true
					last = time.Now()
				} else {
					c.Check(err != nil, "message %d from %d is taken a second time, or too late; history %s", t, from, clip(hist, 500))
				}
			} else {
				hist += "!"
				_ = s.HandleMessage(msg)
			}
			c.Check(len(m.hist) == before, "HandleMessage runs rounds; calls %s", strings.Join(m.hist, " "))
			m.verdict(s, hist)
		}
		ws := c.needed(m)
		c.R.Shuffle(len(ws), func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
		if c.R.IntN(3) == 0 { // in the order of the rounds
			ws2 := [][]byte{}
			for _, t := range m.types {
				for _, w := range ws {
					if w[0] == byte(t) {
						ws2 = append(ws2, w)
					}
				}
			}
			ws = ws2
		}
		if c.R.IntN(2) == 0 {
			process()
		}
		drop := -1
		if len(ws) > 0 && c.R.IntN(4) == 0 {
			drop = c.R.IntN(len(ws))
		}
		lazy := c.R.IntN(3) == 0
		for i, w := range ws {
			if i == drop {
				continue
			}
			give(w, true)
			if c.R.IntN(4) == 0 { // once more, with other contents
				w2 := c.roundWire(m, messages.MessageType(w[0]), wFrom(w), m.self)
				give(w2, true)
			}
			if c.R.IntN(4) == 0 {
				give(c.foreign(m), false)
			}
			if !lazy || c.R.IntN(6) == 0 {
				process()
			}
			if c.R.IntN(10) == 0 {
				time.Sleep(time.Duration(1 + c.R.IntN(2_000_000_000)))
				synctest.Wait()
				m.verdict(s, hist+" sleep")
			}
		}
		process()
		process()
		if drop < 0 && timeout == 0 {
			c.Check(s.IsFinished(), "the session is not over after all its messages; calls %s; history %s", strings.Join(m.hist, " "), clip(hist, 500))
		}
		if timeout > 0 && !s.IsFinished() {
			_ = last
			time.Sleep(2*timeout + time.Second)
			synctest.Wait()
			hist += " elapse"
			c.Check(s.IsFinished() && s.Err() != nil, "the session does not end after its timeout; history %s", clip(hist, 500))
			c.Count("sessions ended by timeout", 1)
		}
		m.verdict(s, hist)
		for i := 0; i < 3; i++ {
			if len(ws) > 0 && s.IsFinished() {
				give(ws[c.R.IntN(len(ws))], true)
			}
			process()
		}
		time.Sleep(10*timeout + time.Hour)
		synctest.Wait()
		m.verdict(s, hist+" end")
		switch {
		case !s.IsFinished():
			c.Count("sessions without end", 1)
		case m.failed:
			c.Count(fmt.Sprintf("sessions with a failing %s", map[bool]string{true: "GenerateMessages", false: "ProcessMessage"}[m.fault.call < 0]), 1)
		case s.Err() == nil:
			c.Count("sessions with success", 1)
		}
		c.Seen(fp(m.ids), m.self, m.types, m.rounds, m.fault, hist)
		c.Sample(map[string]any{"parties": fp(m.ids), "types": m.types, "rounds": m.rounds, "fault": fmt.Sprint(m.fault), "history": clip(hist, 200), "calls": clip(strings.Join(m.hist, " "), 300)})
	})
}

// roundCallers: several goroutines drive one session in real time.
func roundCallers(c *Case) {
	m, r0 := c.newContract(true)
	slow := c.R.IntN(3)
	m.yield = func() {
		switch slow {
		case 0:
			runtime.Gosched()
		case 1:
			for i := 0; i < 50; i++ {
				runtime.Gosched()
			}
		case 2:
			time.Sleep(20 * time.Microsecond)
		}
	}
	var timeout time.Duration
	if c.R.IntN(3) == 0 {
		timeout = time.Duration(1+c.R.IntN(3000)) * time.Microsecond
	}
	s, err := state.NewBaseState(r0, timeout)
	c.Check(err == nil && s != nil, "NewBaseState fails: %v", err)
	ws := c.needed(m)
	g := 2 + c.R.IntN(6)
	lists := make([][]*messages.Message, g)
	for _, w := range ws {
		m.offer(w)
		k := c.R.IntN(g)
		lists[k] = append(lists[k], c.mustDecode(w))
		if c.R.IntN(3) == 0 { // the same again, from another goroutine
			k := c.R.IntN(g)
			lists[k] = append(lists[k], c.mustDecode(w))
		}
		if c.R.IntN(4) == 0 {
			k := c.R.IntN(g)
			lists[k] = append(lists[k], c.mustDecode(c.foreign(m)))
		}
	}
	var wg sync.WaitGroup
	var outs sync.Map
	start := make(chan struct{})
	for k := range lists {
		wg.Add(1)
		go func(k int, burst bool) {
			defer wg.Done()
			<-start
			var mine []*messages.Message
			mine = append(mine, s.ProcessAll()...)
			for _, msg := range lists[k] {
				_ = s.HandleMessage(msg)
				if !burst {
					mine = append(mine, s.ProcessAll()...)
				}
			}
			mine = append(mine, s.ProcessAll()...)
			outs.Store(k, mine)
		}(k, c.R.IntN(2) == 0)
	}
	close(start)
	wg.Wait()
	m.verdict(s, "parallel")
	if timeout == 0 {
		c.Check(s.IsFinished(), "the session is not over after all its messages were handed over by %d goroutines; calls %s", g, strings.Join(m.hist, " "))
	} else {
		err := s.WaitForError()
		if m.failed {
			c.Check(err != nil, "a round fails and WaitForError gives no error")
		}
		m.verdict(s, "parallel, timeout")
	}
	// every generated message was returned to exactly one caller
	if s.Err() == nil {
		count := map[*messages.Message]int{}
		total := 0
		outs.Range(func(_, v any) bool {
			for _, x := range v.([]*messages.Message) {
				count[x]++
				total++
			}
			return true
		})
		c.Check(total == len(m.emit), "the rounds generated %d messages, the callers of ProcessAll got %d", len(m.emit), total)
		c.Count("parallel sessions with success", 1)
	}
	c.Count("parallel sessions", 1)
	m.mtx.Lock()
	defer m.mtx.Unlock()
	c.Seen(fp(m.ids), m.types, m.rounds, m.fault, g, strings.Join(m.hist, " "))
}

func init() {
	register(&Prop{ID: "C23", Bubble: true, Rule: "a session counts if the calls of its rounds were monitored online; distinct by protocol, fault, history",
		Parts: []Part{
			{Name: "histories", Quick: 12000, Thorough: 1200000, Fn: roundHistories},
			{Name: "callers", Quick: 2400, Thorough: 240000, Fn: roundCallers},
		},
		Least: map[string]int64{"monitored round calls": 100000, "messages handed to rounds": 25000, "sessions with success": 1500, "sessions with a failing GenerateMessages": 1000, "sessions with a failing ProcessMessage": 700, "sessions ended by timeout": 200, "parallel sessions": 2400, "parallel sessions with success": 500},
	})
}
