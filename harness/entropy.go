package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// stream is a source of randomness with a fixed content, one bit of which may be flipped,
// which may give short reads and may fail at a position.
type stream struct {
	data  *mrand.ChaCha8
	buf   []byte
	pos   int
	flip  int         // bit, -1 for none
	chunk *mrand.Rand // short reads if set
	empty bool        // also reads of 0 bytes without error
	fail  int         // position of the failure, -1 for none
	err   error
	short int // reads that gave less than asked for
}

func newStream(seed [32]byte) *stream {
	return &stream{data: mrand.NewChaCha8(seed), flip: -1, fail: -1}
}

func (s *stream) at(i int) byte {
	for len(s.buf) <= i {
		var b [64]byte
		s.data.Read(b[:])
		s.buf = append(s.buf, b[:]...)
	}
	x := s.buf[i]
	if s.flip >= 0 && s.flip/8 == i {
		x ^= 1 << (s.flip % 8)
	}
	return x
}

func (s *stream) Read(b []byte) (int, error) {
	n := len(b)
	if s.chunk != nil && n > 0 {
		if s.empty && s.chunk.IntN(4) == 0 {
			s.short++
			return 0, nil
		}
		n = 1 + s.chunk.IntN(n)
		if s.chunk.IntN(3) == 0 {
			n = 1
		}
	}
	if s.fail >= 0 && s.pos+n > s.fail {
		n = s.fail - s.pos
		for i := 0; i < n; i++ {
			b[i] = s.at(s.pos)
			s.pos++
		}
		return n, s.err
	}
	if n < len(b) {
		s.short++
	}
	for i := 0; i < n; i++ {
		b[i] = s.at(s.pos)
		s.pos++
	}
	return n, nil
}

// maker produces the commitments that follow from the secrets drawn from a stream.
type maker struct {
	name    string
	secrets int
	run     func(r io.Reader) []string // one entry per secret
}

func withReader(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

// makers are the places where randomness is drawn.
func (c *Case) maker(kind int) maker {
	n := c.few()
	ids := c.ids(n)
	t := c.t(n)
	if t > 2 && c.R.IntN(2) == 0 {
		t = 2
	}
	id := ids[c.R.IntN(len(ids))]
	switch kind {
	case 0:
		return maker{fmt.Sprintf("first message of key generation, degree %d", t), t + 2, func(r io.Reader) (out []string) {
			x := c.keygenNode(id, ids, t, 0)
			x.Rand = r
			x.step()
			return c.kg1Secrets(c.sent1(x, tKG1), t)
		}}
	case 1:
		k := c.refDeal(ids, t)
		signers := c.subset(ids, c.signers(n, t))
		who := signers[c.R.IntN(len(signers))]
		msg := c.message()
		return maker{"first message of signing", 2, func(r io.Reader) (out []string) {
			x := c.signNode(k, signers, who, msg, 0)
			x.Rand = r
			x.step()
			w := c.sent1(x, tSG1)
			return []string{string(w[5:37]), string(w[37:69])}
		}}
	default:
		return maker{fmt.Sprintf("trusted dealer, degree %d", t), t + 1, func(r io.Reader) (out []string) {
			withReader(r, func() {
				s, sh := helpers.GenerateSecrets(ids, party.Size(t))
				// coefficients from the secret and t shares
				xs, ys := []int64{0}, []*big.Int{scBig(s)}
				for _, id := range ids[:t] {
					xs, ys = append(xs, int64(id)), append(ys, scBig(&sh[id].Secret))
				}
				out = coefficients(xs, ys)
			})
			return
		}}
	}
}

// coefficients interpolates a polynomial and returns its coefficients.
func coefficients(xs []int64, ys []*big.Int) []string {
	n := len(xs)
	acc := make([]*big.Int, n)
	for i := range acc {
		acc[i] = new(big.Int)
	}
	for i := range xs {
		// numerator polynomial prod (X - xj), as coefficients
		p := []*big.Int{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range xs {
			if j == i {
				continue
			}
			q := make([]*big.Int, len(p)+1)
			for k := range q {
				q[k] = new(big.Int)
			}
			for k, a := range p {
				q[k+1] = ref.SAdd(q[k+1], a)
				q[k] = ref.SSub(q[k], ref.SMul(a, ref.SInt(xs[j])))
			}
			p = q
			den = ref.SMul(den, ref.SInt(xs[i]-xs[j]))
		}
		f := ref.SMul(ys[i], ref.SInv(den))
		for k, a := range p {
			acc[k] = ref.SAdd(acc[k], ref.SMul(a, f))
		}
	}
	var out []string
	for _, a := range acc {
		out = append(out, a.String())
	}
	return out
}

// kg1Secrets are the commitments of a KeyGen1 message and that of its proof.
func (c *Case) kg1Secrets(w []byte, t int) (out []string) {
	p := w[5:]
	c.Check(len(p) == 66+32*(t+1), "a KeyGen1 message of %d bytes for degree %d", len(w), t)
	for i := 0; i <= t; i++ {
		out = append(out, string(p[66+32*i:98+32*i]))
	}
	s, _ := ref.SCanon(p[:32])
	r, _ := ref.SCanon(p[32:64])
	var pub, m ristretto.Element
	_, err := pub.SetCanonicalBytes(p[66:98])
	c.Check(err == nil && s != nil && r != nil, "a KeyGen1 message with invalid content")
	pub.Negate(&pub)
	m.VarTimeDoubleScalarBaseMult(bigSc(s), &pub, bigSc(r))
	return append(out, string(m.Bytes()))
}

// sensitivity: every secret follows from its own at least 250 bits of the stream.
func sensitivity(c *Case) {
	mk := c.maker(c.Idx % 3)
	seed := c.seed32()
	s := newStream(seed)
	base := mk.run(s)
	used := s.pos
	c.Check(len(base) == mk.secrets, "%s: %d secrets instead of %d", mk.name, len(base), mk.secrets)
	again := newStream(seed)
	c.Check(strings.Join(mk.run(again), "") == strings.Join(base, ""), "%s: with the same content of crypto/rand.Reader the secrets differ", mk.name)
	c.Check(used > 0, "%s reads nothing from crypto/rand.Reader", mk.name)
	own := make([]int, mk.secrets)
	total := make([]int, mk.secrets)
	for b := 0; b < 8*used; b++ {
		f := newStream(seed)
		f.flip = b
		out := mk.run(f)
		which, n := -1, 0
		for i := range out {
			if out[i] != base[i] {
				which, n = i, n+1
				total[i]++
			}
		}
		if n == 1 {
			own[which]++
		}
	}
	for i := range own {
		c.Check(own[i] >= 250, "%s: secret %d of %d depends on only %d bits of the randomness (%d of them its own), of %d read", mk.name, i+1, mk.secrets, total[i], own[i], 8*used)
		c.Eval(1)
	}
	c.Count("bits flipped", 8*used)
	c.Count("secrets with their own entropy", mk.secrets)
	c.Seen("bits", mk.name, used, string(base[0]))
	c.Sample(map[string]any{"of": mk.name, "bytes read": used, "bits per secret": total})
}

// distinct: no two commitments of any sessions coincide.
func distinct(c *Case) {
	seen := map[string]string{}
	put := func(b, what string) {
		c.Check(seen[b] == "", "the same value is used twice: as %s and as %s", seen[b], what)
		seen[b] = what
		c.Eval(1)
	}
	n := 2 + c.R.IntN(4)
	if c.forced > 0 {
		n = min(c.forced, 14)
	}
	ids := c.ids(n)
	t := c.t(n)
	var keys []*Key
	for k := 0; k < 2; k++ {
		ns := c.keygenNodes(ids, t, 0)
		c.run(ns, c.plan(ns))
		key := &Key{IDs: ids, T: t, Secrets: c.secretsOf(ns), Public: ns[0].KG.Public}
		keys = append(keys, key)
		for _, x := range ns {
			for i, s := range c.kg1Secrets(c.sent1(x, tKG1), t) {
				put(s, fmt.Sprintf("secret %d of party %d in key generation %d", i, x.ID, k))
			}
		}
	}
	msg := c.message()
	signers := c.subset(ids, c.signers(n, t))
	for s := 0; s < 6; s++ {
		m := msg
		if s%3 == 2 {
			m = c.message()
		}
		k := keys[s%2]
		var ns []*Node
		switch c.R.IntN(3) {
		case 0: // the session is abandoned after the first message
			ns = c.signNodes(k, signers, m, 0)
			for _, x := range ns {
				x.step()
			}
		default:
			ns = c.signNodes(k, signers, m, 0)
			c.run(ns, c.plan(ns))
		}
		for _, x := range ns {
			w := c.sent1(x, tSG1)
			put(string(w[5:37]), fmt.Sprintf("D of party %d in signing session %d", x.ID, s))
			put(string(w[37:69]), fmt.Sprintf("E of party %d in signing session %d", x.ID, s))
		}
	}
	for k := 0; k < 2; k++ {
		s, sh := helpers.GenerateSecrets(ids, party.Size(t))
		put(string(s.Bytes()), fmt.Sprintf("secret of dealer %d", k))
		for id, x := range sh {
			put(string(x.Secret.Bytes()), fmt.Sprintf("share of %d of dealer %d", id, k))
		}
	}
	c.Count("commitments compared", len(seen))
	c.Seen("distinct", fp(ids), t, c.Idx)
}

// distinctLarge: the coefficients of polynomials of large degree, of the parties of a key
// generation and of dealers, are all different.
func distinctLarge(c *Case) {
	seen := map[string]string{}
	put := func(b, what string) {
		c.Check(seen[b] == "", "the same value is used twice: as %s and as %s", seen[b], what)
		seen[b] = what
		c.Eval(1)
	}
	t := 17 + c.R.IntN(240)
	if c.Idx%4 == 0 {
		t = 200 + c.R.IntN(800)
	}
	if c.Idx%2 == 0 {
		n := t + 1 + c.R.IntN(20)
		ids := c.ids(n)
		for k := 0; k < 2; k++ {
			id := ids[c.R.IntN(n)]
			x := c.keygenNode(id, ids, t, 0)
			x.step()
			for i, s := range c.kg1Secrets(c.sent1(x, tKG1), t) {
				put(s, fmt.Sprintf("secret %d of %d of session %d", i, t+2, k))
			}
		}
		c.Count("large degrees: key generation", 1)
	} else {
		t = min(t, 34+c.R.IntN(40)) // the reference interpolates
		ids := c.ids(t + 1)
		for k := 0; k < 2; k++ {
			s, sh := helpers.GenerateSecrets(ids, party.Size(t))
			xs, ys := []int64{}, []*big.Int{}
			for _, id := range ids {
				xs = append(xs, int64(id))
				ys = append(ys, scBig(&sh[id].Secret))
			}
			co := coefficients(xs, ys)
			c.Check(len(co) == t+1 && co[0] == scBig(s).String(), "the constant of a dealt polynomial of degree %d is not its secret", t)
			for i, x := range co {
				put(x, fmt.Sprintf("coefficient %d of dealer %d", i, k))
			}
		}
		c.Count("large degrees: dealing", 1)
	}
	c.Count("commitments compared", len(seen))
	c.Seen("distinct large", t, c.Idx)
}

func (c *Case) secretsOf(ns []*Node) map[party.ID]*eddsa.SecretShare {
	m := map[party.ID]*eddsa.SecretShare{}
	for _, x := range ns {
		c.Check(x.done() && x.St.Err() == nil && !x.empty(), "honest key generation of party %d: finished=%v, %v", x.ID, x.done(), x.St.Err())
		m[x.ID] = x.KG.SecretKey
	}
	return m
}

// shortReads: the secrets are the same if the source gives its bytes in small pieces.
func shortReads(c *Case) {
	mk := c.maker(c.Idx % 3)
	seed := c.seed32()
	base := mk.run(newStream(seed))
	for k := 0; k < 4; k++ {
		s := newStream(seed)
		s.chunk = mrand.New(mrand.NewPCG(c.R.Uint64(), 3))
		s.empty = k%2 == 1
		out := mk.run(s)
		c.Check(strings.Join(out, "") == strings.Join(base, ""), "%s: the secrets are others when crypto/rand.Reader gives its bytes in %d short reads", mk.name, s.short)
		c.Count("short reads", s.short)
		c.Eval(1)
	}
	c.Seen("short", mk.name, string(base[0]))
}

// failing: when the source fails, nothing that depends on it is emitted. The process may end.
func failing(c *Case) {
	kind := c.Idx % 3
	n := c.few()
	t := c.t(n)
	need := map[int]int{0: 64 * (t + 2), 1: 128, 2: 64 * (t + 1)}[kind]
	at := c.R.IntN(need)
	switch c.R.IntN(4) {
	case 0:
		at = 64 * c.R.IntN(need/64)
	case 1:
		at = need - 1
	}
	errKind := c.R.IntN(3)
	exe, err := os.Executable()
	c.Check(err == nil, "harness: %v", err)
	cmd := exec.Command(exe, "-child", "failing", fmt.Sprint(kind), fmt.Sprint(n), fmt.Sprint(t), fmt.Sprint(at), fmt.Sprint(errKind), fmt.Sprint(c.R.Uint32()))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	var out bytes.Buffer
	cmd.Stdout = &out
	runErr := cmd.Run()
	began, emitted, ended := false, "", ""
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		switch {
		case len(f) == 1 && f[0] == "BEGIN":
			began = true
		case len(f) == 2 && f[0] == "EMIT":
			emitted = f[1]
		case len(f) > 0 && f[0] == "END":
			ended = sc.Text()
		case len(f) > 0 && f[0] == "USED":
			if f[1] != "failed" {
				// the library needs less randomness than expected here
				c.Count("the failure was not reached", 1)
				return
			}
		}
	}
	c.Check(began, "harness: the helper process did not start: %v", runErr)
	c.Check(emitted == "", "crypto/rand.Reader fails after %d bytes, but a message is emitted: %s", at, clip(emitted, 100))
	switch {
	case runErr != nil:
		c.Count("failures that end the process", 1)
	case strings.HasPrefix(ended, "END panic"):
		c.Count("failures that panic", 1)
	default:
		c.Count("failures that are reported otherwise", 1)
	}
	c.Eval(1)
	c.Seen("fail", kind, n, t, at, errKind)
	c.Sample(map[string]any{"kind": kind, "fails after": at, "helper ends with": fmt.Sprint(runErr), "said": ended})
}

func failingChild(args []string) {
	var v [6]int
	for i := range v {
		v[i], _ = strconv.Atoi(args[i])
	}
	kind, n, t, at := v[0], v[1], v[2], v[3]
	c := newCase("child", "failing", v[5], 1, false)
	ids := c.ids(n)
	s := newStream(c.seed32())
	s.fail = at
	s.err = []error{errors.New("no randomness"), io.EOF, io.ErrUnexpectedEOF}[v[4]]
	fmt.Println("BEGIN")
	say := func(m string) { os.Stdout.WriteString(m + "\n") }
	defer func() {
		if s.pos < at {
			say("USED less")
		} else {
			say("USED failed")
		}
		if e := recover(); e != nil {
			say("END panic")
		} else {
			say("END normally")
		}
	}()
	switch kind {
	case 0, 1:
		var x *Node
		if kind == 0 {
			x = c.keygenNode(ids[0], ids, t, 0)
		} else {
			k := c.refDeal(ids, t)
			x = c.signNode(k, ids, ids[0], []byte("x"), 0)
		}
		x.Rand = s
		for k := 0; k < 2; k++ {
			func() {
				defer func() { _ = recover() }()
				for _, m := range x.stepMsgs() {
					b, err := m.MarshalBinary()
					if err == nil {
						say("EMIT " + hex.EncodeToString(b))
					}
				}
			}()
			if s.pos < at {
				break
			}
		}
	case 2:
		withReader(s, func() {
			_, sh := helpers.GenerateSecrets(ids, party.Size(t))
			for id, x := range sh {
				say(fmt.Sprintf("EMIT %d:%x", id, x.Secret.Bytes()))
			}
		})
	}
}

func init() {
	children["failing"] = failingChild
	register(&Prop{ID: "C17", Rule: "an execution counts if the secrets drawn from a controlled source were compared; distinct by the kind of secret, the source's content and its faults",
		Parts: []Part{
			{Name: "sensitivity", Quick: 96, Thorough: 3000, Fn: sensitivity},
			{Name: "distinct", Quick: 160, Thorough: 20000, Fn: distinct},
			{Name: "distinct sizes", Quick: 58, Thorough: 3000, Fn: allSizes(distinct)},
			{Name: "distinct large", Quick: 60, Thorough: 4000, Fn: distinctLarge},
			{Name: "short", Quick: 600, Thorough: 60000, Fn: shortReads},
			{Name: "short sizes", Quick: 261, Thorough: 20000, Fn: allSizes(shortReads)},
			{Name: "distinct crowds", Quick: 96, Thorough: 20000, Fn: distinctCrowd},
			{Name: "failing", Quick: 240, Thorough: 20000, Fn: failing},
		},
		Least: map[string]int64{"bits flipped": 50000, "commitments compared": 3000, "short reads": 5000, "secrets with their own entropy": 150},
	})
}
