package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// C21: the built command-line tools are run in a scratch directory of their own; what they
// print and write is judged by the reference.

type toolRun struct {
	out, err string
	rc       int
	crash    string // why it counts as a crash or hang
}

func (r *toolRun) success() bool { return strings.Contains(r.out, "Success") }

// workDir is a fresh directory inside the run's scratch directory.
func (c *Case) workDir() (string, func()) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "tool-")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// tool runs one of the tools.
func (c *Case) tool(dir, name string, args ...string) *toolRun {
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	progress.mtx.Lock()
	progress.exempt = true
	progress.mtx.Unlock()
	exe := filepath.Join(os.Getenv("VERIF_TOOLS"), name)
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=all", "GOMAXPROCS=2"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := &toolRun{out: o.String(), err: e.String()}
	if cmd.ProcessState == nil {
		panic(fmt.Sprintf("harness: cannot run %s: %v", exe, err))
	}
	r.rc = cmd.ProcessState.ExitCode()
	switch {
	case ctx.Err() != nil:
		r.crash = "does not end within 150 s"
	case r.rc < 0:
		r.crash = "is ended by a signal: " + cmd.ProcessState.String()
	case strings.Contains(r.err, "panic: ") || strings.Contains(r.err, "fatal error: ") || strings.Contains(r.err, "\ngoroutine 1 "):
		r.crash = "crashes: " + clip(r.err, 500)
	}
	c.Count("tool runs: "+name, 1)
	return r
}

func (c *Case) noCrash(r *toolRun, what string) {
	c.Check(r.crash == "", "%s %s", what, r.crash)
	c.Eval(1)
}

// keyFile is what the reference makes of a key file.
type keyFile struct {
	pub     refPub
	secrets map[party.ID]refShare
	n       int
}

// refKeyFile: vAccept for consistent files with the parties 1..n, vRefuse for files no
// signature can be made from.
func refKeyFile(b []byte) (*keyFile, verdict) {
	var o struct {
		Secrets map[string]json.RawMessage
		Shares  json.RawMessage
	}
	if json.Unmarshal(b, &o) != nil || len(o.Shares) == 0 || string(o.Shares) == "null" {
		return nil, vRefuse
	}
	v := vAccept
	if dupKeys(b) {
		v = vUnclear
	}
	pub, v1 := refPublicJSON(o.Shares)
	if v = worse(v, v1); v == vRefuse {
		return nil, vRefuse
	}
	k := &keyFile{pub: pub, secrets: map[party.ID]refShare{}, n: len(pub.shares)}
	for s, raw := range o.Secrets {
		id, err := strconv.ParseUint(s, 10, 16)
		if err != nil {
			return nil, vRefuse // not a map of IDs
		}
		if strconv.FormatUint(id, 10) != s || k.pub.shares[party.ID(id)] == nil {
			v = worse(v, vUnclear)
			if k.pub.shares[party.ID(id)] == nil {
				continue
			}
		}
		sh, v2 := refSecretJSON(raw)
		if v = worse(v, v2); v == vRefuse {
			return nil, vRefuse
		}
		k.secrets[party.ID(id)] = sh
	}
	for id, enc := range pub.shares {
		if int(id) > k.n {
			v = worse(v, vUnclear)
		}
		sh, ok := k.secrets[id]
		if !ok {
			if v == vAccept {
				return k, vRefuse // no secret for a party
			}
			continue
		}
		if sh.x == nil {
			continue
		}
		if sh.id != int64(id) {
			v = worse(v, vUnclear)
		} else if v == vAccept && !bytes.Equal(ref.MulBase(sh.x).Encode(), enc) {
			return k, vRefuse // the secret is not that of the public share
		}
	}
	return k, v
}

var hexR = regexp.MustCompile(`(?mi)^\s*r:\s*([0-9a-f]+)\s*$`)
var hexS = regexp.MustCompile(`(?mi)^\s*s:\s*([0-9a-f]+)\s*$`)

// signature reads the printed signature in Ed25519 form.
func (c *Case) printedSignature(out string) (r, s, sig []byte) {
	mr, ms := hexR.FindStringSubmatch(out), hexS.FindStringSubmatch(out)
	c.Check(mr != nil && ms != nil, "signer reports success and prints no signature: %s", clip(out, 400))
	r, _ = hex.DecodeString(mr[1])
	s, _ = hex.DecodeString(ms[1])
	c.Check(len(r) == 32 && len(s) == 32, "signer prints a signature of the wrong length: %s", clip(out, 400))
	p, ok := ref.Decode(r)
	c.Check(ok, "the r printed by signer encodes no group element: %x", r)
	return r, s, append(p.Prime().EncodeEd(), s...)
}

// signs runs signer; with a nil group only the absence of crashes is judged.
func (c *Case) signs(dir, file, msg string, group *ref.Point, must verdict, what string) (ok bool, r, s []byte) {
	t := c.tool(dir, "signer", file, msg)
	what = fmt.Sprintf("signer on %s, message %s", what, hexClip([]byte(msg)))
	c.noCrash(t, what)
	if !t.success() {
		c.Check(must != vAccept, "%s gives no signature: %s", what, clip(t.out+t.err, 400))
		c.Count("signer: no success", 1)
		return false, nil, nil
	}
	c.Check(must != vRefuse, "%s reports success: %s", what, clip(t.out, 300))
	c.Check(t.rc == 0, "%s reports success and exit code %d", what, t.rc)
	r, s, sig := c.printedSignature(t.out)
	if group != nil {
		pk := group.Prime().EncodeEd()
		c.Check(ed25519.Verify(pk, []byte(msg), sig), "%s prints a signature that is not valid under the group key %x: %x", what, pk, sig)
		c.Count("printed signatures verified", 1)
		c.Eval(1)
	}
	return true, r, s
}

var groupRe = regexp.MustCompile(`(?i)Group Key:\s*([0-9a-f]{64})`)
var partyRe = regexp.MustCompile(`(?i)Party (\d+):\s*secret:\s*([0-9a-f]{64})\s*public:\s*([0-9a-f]{64})`)

// madeKey judges a successful keygen run.
func (c *Case) madeKey(dir string, t, n int, r *toolRun, what string) (*keyFile, []byte) {
	c.Check(r.success(), "%s does not report success: %s", what, clip(r.out+r.err, 300))
	c.Check(r.rc == 0, "%s reports success and exit code %d", what, r.rc)
	b, err := os.ReadFile(filepath.Join(dir, "keygenout.json"))
	c.Check(err == nil, "%s reports success and writes no key file: %v", what, err)
	k, v := refKeyFile(b)
	c.Check(v == vAccept, "%s writes an inconsistent key file: %s", what, clip(string(b), 600))
	c.Check(k.n == n && k.pub.t == t, "%s writes a key with (t, n) = (%d, %d)", what, k.pub.t, k.n)
	ids, xs := []int64{}, map[party.ID]*big.Int{}
	for i := 1; i <= n; i++ {
		sh, ok := k.secrets[party.ID(i)]
		c.Check(ok && sh.id == int64(i), "%s writes no secret of party %d", what, i)
		ids = append(ids, int64(i))
		xs[party.ID(i)] = sh.x
	}
	// any t+1 secrets determine the group key, and the others: degree exactly t
	all := make(party.IDSlice, n)
	for i := range all {
		all[i] = party.ID(i + 1)
	}
	ys := []*big.Int{}
	for _, id := range ids[:t+1] {
		ys = append(ys, xs[party.ID(id)])
	}
	secret := ref.Interpolate(ids[:t+1], ys, new(big.Int))
	if n <= 20 {
		c.degreeExact(all, t, xs, secret)
	} else if t+1 < n {
		last := []*big.Int{}
		for _, id := range ids[n-t-1:] {
			last = append(last, xs[party.ID(id)])
		}
		c.Check(ref.Interpolate(ids[n-t-1:], last, new(big.Int)).Cmp(secret) == 0, "%s: the first and the last %d secrets determine different keys", what, t+1)
	}
	c.Check(ref.MulBase(secret).Equal(k.pub.group), "%s: the secrets are not those of the group key", what)
	// what it prints
	g := groupRe.FindStringSubmatch(r.out)
	c.Check(g != nil, "%s prints no group key: %s", what, clip(r.out, 300))
	pk, _ := hex.DecodeString(g[1])
	c.Check(bytes.Equal(pk, k.pub.group.Prime().EncodeEd()), "%s prints the group key %x and writes %x", what, pk, k.pub.group.Prime().EncodeEd())
	ps := partyRe.FindAllStringSubmatch(r.out, -1)
	c.Check(len(ps) == n, "%s prints the values of %d parties", what, len(ps))
	for i, p := range ps {
		id, _ := strconv.Atoi(p[1])
		c.Check(id == i+1, "%s prints party %d in place of %d", what, id, i+1)
		c.Check(p[2] == hex.EncodeToString(ref.ToLE(xs[party.ID(id)])), "%s prints for party %d another secret than it writes", what, id)
		c.Check(p[3] == hex.EncodeToString(k.pub.shares[party.ID(id)]), "%s prints for party %d another public share than it writes", what, id)
	}
	c.Eval(3 + n)
	c.Count("keys made", 1)
	return k, pk
}

var seenKeys sync.Map

// cliMessages: as arguments, messages cannot contain 0 bytes.
func (c *Case) argMessage() string {
	switch c.R.IntN(12) {
	case 9, 10: // looks like a path, or padded: as it is, whatever its length
		parts := []string{"/", "//", "/./", "/../", "..", ".", "a", "file.txt", "dir", " ", "\t", "\n", "\r\n", "~", "$HOME", "%2f", "\\", "C:", "@", "0x", "e\u0301", "\u00e9", "ÀB"}
		s := ""
		for l := c.R.IntN(200); len(s) <= l; {
			s += parts[c.R.IntN(len(parts))]
		}
		return s
	case 11: // hex, numbers, JSON: not to be decoded
		return []string{"00ff", "0x1234", hex.EncodeToString(c.Bytes(32)), hex.EncodeToString(c.Bytes(64)), "12345", "\"quoted\"", "{\"a\":1}", "aGVsbG8=", "-", "@keygenout.json", "/dev/stdin", "/dev/null"}[c.R.IntN(12)]
	case 0:
		return ""
	case 1:
		return "-h"
	case 2:
		return strings.Repeat("x", c.R.IntN(100000))
	case 3:
		return "--"
	case 4:
		return "the \"message\"\n\twith %d %s and spaces "
	case 5:
		return "keygenout.json"
	case 6:
		return "\xff\xfe\x80é\u2028"
	}
	b := c.Bytes(1 + c.R.IntN(300))
	for i := range b {
		if b[i] == 0 {
			b[i] = 1
		}
	}
	return string(b)
}

func (c *Case) useKey(dir string, k *keyFile, runs int, what string) {
	msg := c.argMessage()
	rs := map[string]bool{}
	for i := 0; i < runs; i++ {
		_, r, _ := c.signs(dir, "keygenout.json", msg, k.pub.group, vAccept, what)
		c.Check(!rs[string(r)], "signer uses one r twice: %x", r)
		rs[string(r)] = true
		if c.R.IntN(2) == 0 {
			msg = c.argMessage()
		}
	}
}

func toolsHonest(c *Case, t, n, runs int) {
	dir, done := c.workDir()
	defer done()
	old := c.R.IntN(4)
	if old == 0 { // an older file is replaced, even a longer one
		os.WriteFile(filepath.Join(dir, "keygenout.json"), bytes.Repeat([]byte("{}"), 1+c.R.IntN(200000)), 0o644)
	}
	what := fmt.Sprintf("keygen %d %d", t, n)
	r := c.tool(dir, "keygen", strconv.Itoa(t), strconv.Itoa(n))
	c.noCrash(r, what)
	k, pk := c.madeKey(dir, t, n, r, what)
	_, dup := seenKeys.LoadOrStore(string(pk), true)
	c.Check(!dup, "keygen makes the key %x twice", pk)
	c.useKey(dir, k, runs, what)
	c.Seen(t, n, pk)
	c.Sample(map[string]any{"t": t, "n": n, "group key": fmt.Sprintf("%x", pk), "signatures": runs})
}

// toolsSmall: every 0 < t < n <= 8.
func toolsSmall(c *Case) {
	i := c.Idx % 28
	n := 2
	for i >= n-1 {
		i -= n - 1
		n++
	}
	toolsHonest(c, i+1, n, 3)
}

func toolsLarge(c *Case) {
	n := []int{99, 99, 50, 64, 33, 98, 17, 20}[c.Idx%8]
	t := []int{1, 98, 25, 63, 3, 2, 16, 10}[c.Idx%8]
	if c.Idx >= 8 {
		n = 9 + c.R.IntN(91)
		t = 1 + c.R.IntN(n-1)
	}
	toolsHonest(c, t, n, 1)
}

func dirState(dir string) string {
	var s []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		s = append(s, fmt.Sprintf("%s:%x", e.Name(), b))
	}
	return strings.Join(s, ";")
}

// badArguments of keygen.
func badArguments(c *Case) {
	num := func(x int) string { return strconv.Itoa(x) }
	bad := []string{"", "x", "1.0", "1e1", "0x2", "2 ", " 2", "+", "-", "--", "-h", "１", "9223372036854775808", "99999999999999999999", "1_0", "NaN", "two", "2,3", "2/3", "\n2"}
	n := 2 + c.R.IntN(98)
	var args []string
	switch c.Idx % 14 {
	case 0:
		args = []string{num(n), num(n)}
	case 1:
		args = []string{num(n + 1 + c.R.IntN(100)), num(n)}
	case 2:
		args = []string{"0", num(n)}
	case 3:
		args = []string{num(-1 - c.R.IntN(70000)), num(n)}
	case 4:
		args = []string{num(1 + c.R.IntN(99)), num(101 + c.R.IntN(65536))}
	case 5: // beyond 16 bits
		args = []string{num(1 + c.R.IntN(3)), num(65536*(1+c.R.IntN(3)) + 4 + c.R.IntN(20))}
	case 6:
		args = []string{num(65536*(1+c.R.IntN(3)) + 1 + c.R.IntN(3)), num(5 + c.R.IntN(20))}
	case 7:
		args = []string{num(-65536*(1+c.R.IntN(3)) + 1 + c.R.IntN(3)), num(5 + c.R.IntN(20))}
	case 8:
		args = []string{bad[c.R.IntN(len(bad))], num(n)}
	case 9:
		args = []string{num(1), bad[c.R.IntN(len(bad))]}
	case 10:
		args = []string{"1", num(-n)}
	case 11:
		args = [][]string{{}, {"1"}, {"1", "2", "3"}, {"1", "3", ""}, {"", ""}, {"3"}, {"keygen", "1", "2"}}[c.R.IntN(7)]
	case 12:
		args = [][]string{{"0", "0"}, {"0", "1"}, {"1", "1"}, {"1", "0"}, {"-1", "-1"}, {"-2", "-1"}, {"-2", "0"}, {"2", "1"}, {"1", "-1"}}[c.R.IntN(9)]
	case 13:
		args = [][]string{{"9223372036854775807", "9223372036854775807"}, {"-9223372036854775808", "9223372036854775807"}, {"1", "9223372036854775807"}, {"-9223372036854775808", "5"}, {"1", "-9223372036854775808"}, {"4294967297", "4294967299"}, {"1", "4294967299"}, {"4294967297", "3"}}[c.R.IntN(8)]
	}
	dir, done := c.workDir()
	defer done()
	if c.R.IntN(3) == 0 {
		os.WriteFile(filepath.Join(dir, "keygenout.json"), []byte("an older key"), 0o644)
	}
	before := dirState(dir)
	r := c.tool(dir, "keygen", args...)
	what := fmt.Sprintf("keygen %q", args)
	c.noCrash(r, what)
	c.Check(!r.success(), "%s reports success: %s", what, clip(r.out, 300))
	c.Check(dirState(dir) == before, "%s changes files", what)
	c.Check(!groupRe.MatchString(r.out) && !partyRe.MatchString(r.out), "%s prints a key: %s", what, clip(r.out, 300))
	c.Count("bad arguments of keygen", 1)
	c.Seen(fmt.Sprintf("%q", args))
	c.Sample(map[string]any{"arguments": args, "printed": clip(r.out, 100)})
}

// unwritable: the key file cannot be written.
func unwritable(c *Case) {
	dir, done := c.workDir()
	defer done()
	f := filepath.Join(dir, "keygenout.json")
	how := []string{"a directory", "a full device", "a link into a missing directory", "a link to itself"}[c.Idx%4]
	switch c.Idx % 4 {
	case 0:
		os.Mkdir(f, 0o755)
	case 1:
		os.Symlink("/dev/full", f)
	case 2:
		os.Symlink(filepath.Join(dir, "missing", "x"), f)
	case 3:
		os.Symlink("keygenout.json", f)
	}
	t := 1 + c.R.IntN(3)
	n := t + 1 + c.R.IntN(3)
	r := c.tool(dir, "keygen", strconv.Itoa(t), strconv.Itoa(n))
	what := "keygen, when keygenout.json is " + how + ","
	c.noCrash(r, what)
	if r.success() {
		// only if it found a way to write it
		fi, err := os.Lstat(f)
		c.Check(err == nil && fi.Mode().IsRegular(), "%s reports success: %s", what, clip(r.out, 300))
		c.madeKey(dir, t, n, r, what)
	}
	c.Count("unwritable key files", 1)
	c.Seen(how, r.out)
}

// obj is a JSON object with ordered members.
type obj []member
type member struct {
	k string
	v any // obj or raw JSON text
}

func (o obj) String() string {
	var s []string
	for _, m := range o {
		s = append(s, fmt.Sprintf("%q:%v", m.k, m.v))
	}
	return "{" + strings.Join(s, ",") + "}"
}

// keyText is a key file for a key of parties 1..n.
func (c *Case) keyText(n, t int) (*Key, func(secret func(i int) string, share func(i int) string) obj) {
	ids := make(party.IDSlice, n)
	for i := range ids {
		ids[i] = party.ID(i + 1)
	}
	k := c.refDeal(ids, t)
	return k, func(secret, share func(i int) string) obj {
		var ss, ps obj
		for i := 1; i <= n; i++ {
			ss = append(ss, member{strconv.Itoa(i), secret(i)})
			ps = append(ps, member{strconv.Itoa(i), share(i)})
		}
		return obj{{"Secrets", ss}, {"Shares", obj{{"t", strconv.Itoa(t)}, {"groupkey", `"` + b64(ref.MulBase(k.secret()).Encode()) + `"`}, {"shares", ps}}}}
	}
}

// keyFiles of all kinds for signer.
func badKeyFiles(c *Case) {
	dir, done := c.workDir()
	defer done()
	n := 2 + c.R.IntN(4)
	t := 1 + c.R.IntN(n-1)
	k, text := c.keyText(n, t)
	q := func(b []byte) string { return `"` + b64(b) + `"` }
	sec := func(i int) string {
		return fmt.Sprintf(`{"id":%d,"secret":%s}`, i, q(k.Secrets[party.ID(i)].Secret.Bytes()))
	}
	shr := func(i int) string { return q(k.Public.Shares[party.ID(i)].Bytes()) }
	j := 1 + c.R.IntN(n)
	at := func(f func(i int) string, repl string) func(i int) string {
		return func(i int) string {
			if i == j {
				return repl
			}
			return f(i)
		}
	}
	try := func(b string, how string) {
		f := filepath.Join(dir, "key.json")
		if err := os.WriteFile(f, []byte(b), 0o644); err != nil {
			panic(err)
		}
		kf, v := refKeyFile([]byte(b))
		var g *ref.Point
		if kf != nil {
			g = kf.pub.group
		}
		c.signs(dir, "key.json", c.argMessage(), g, v, how+": "+clip(b, 700))
		c.Count("key files: "+[]string{"usable", "unusable", "unclear"}[v], 1)
		c.Seen(how, b)
	}
	try(text(sec, shr).String(), "a consistent file")
	raw := sec(j)[strings.Index(sec(j), `"secret":`)+9 : len(sec(j))-1]
	x := scBig(&k.Secrets[party.ID(j)].Secret)
	o := j%n + 1
	secrets := []string{"null", "{}", "[]", `""`, "0", sec(o), fmt.Sprintf(`{"id":%d,"secret":%s}`, o, raw), fmt.Sprintf(`{"id":0,"secret":%s}`, raw), fmt.Sprintf(`{"id":%d,"secret":%s}`, n+1, raw), fmt.Sprintf(`{"id":%d,"secret":%s}`, 65536+j, raw),
		fmt.Sprintf(`{"id":%d}`, j), fmt.Sprintf(`{"secret":%s}`, raw), fmt.Sprintf(`{"id":%d,"secret":null}`, j), fmt.Sprintf(`{"id":%d,"secret":""}`, j),
		fmt.Sprintf(`{"id":%d,"secret":%s}`, j, q(ref.ToLE(ref.SAdd(x, big.NewInt(1))))), fmt.Sprintf(`{"id":%d,"secret":%s}`, j, q(ref.ToLE(ref.SNeg(x)))),
		fmt.Sprintf(`{"id":%d,"secret":%s}`, j, q(c.badScalar())), fmt.Sprintf(`{"id":%d,"secret":%s}`, j, q(ref.ToLE(c.scalar()))), fmt.Sprintf(`{"id":%d,"secret":%s}`, j, q(ref.ToLE(new(big.Int)))), fmt.Sprintf(`{"id":"%d","secret":%s}`, j, raw)}
	try(text(at(sec, secrets[c.Idx%len(secrets)]), shr).String(), "one secret replaced")
	try(text(at(sec, secrets[c.R.IntN(len(secrets))]), shr).String(), "one secret replaced")
	shares := []string{"null", `""`, "0", "{}", shr(o), q(c.badPoint()), q(c.encPoint()), q(ref.Identity().Encode()), q(ref.MulBase(ref.SAdd(x, big.NewInt(1))).Encode())}
	try(text(sec, at(shr, shares[c.Idx%len(shares)])).String(), "one public share replaced")
	// the structure of the file
	alter := func(how string, f func(o obj) obj) { try(f(text(sec, shr)).String(), how) }
	ss := func(o obj) obj { return o[0].v.(obj) }
	pub := func(o obj) obj { return o[1].v.(obj) }
	drop := func(o obj, i int) obj { return append(append(obj{}, o[:i]...), o[i+1:]...) }
	structure := []func(){
		func() { alter("no Secrets", func(o obj) obj { return drop(o, 0) }) },
		func() { alter("no Shares", func(o obj) obj { return drop(o, 1) }) },
		func() { alter("Secrets null", func(o obj) obj { o[0].v = "null"; return o }) },
		func() { alter("Shares null", func(o obj) obj { o[1].v = "null"; return o }) },
		func() { alter("Shares empty", func(o obj) obj { o[1].v = "{}"; return o }) },
		func() { alter("Secrets empty", func(o obj) obj { o[0].v = "{}"; return o }) },
		func() { alter("Secrets a list", func(o obj) obj { o[0].v = "[" + sec(1) + "]"; return o }) },
		func() { alter("Shares a list", func(o obj) obj { o[1].v = "[]"; return o }) },
		func() { alter("one secret missing", func(o obj) obj { o[0].v = drop(ss(o), j-1); return o }) },
		func() {
			alter("all but t secrets missing", func(o obj) obj { o[0].v = ss(o)[:t]; return o })
		},
		func() { alter("no t", func(o obj) obj { o[1].v = drop(pub(o), 0); return o }) },
		func() { alter("no group key", func(o obj) obj { o[1].v = drop(pub(o), 1); return o }) },
		func() { alter("no shares", func(o obj) obj { o[1].v = drop(pub(o), 2); return o }) },
		func() {
			alter("another t", func(o obj) obj {
				pub(o)[0].v = []string{"0", "-1", strconv.Itoa(n), strconv.Itoa(n + 1), "65535", strconv.Itoa(65536 + t), "1.5", `"1"`, "null", strconv.Itoa(1 + c.R.IntN(n-1))}[c.R.IntN(10)]
				return o
			})
		},
		func() {
			alter("another group key", func(o obj) obj {
				pub(o)[1].v = []string{q(c.encPoint()), q(ref.Identity().Encode()), q(c.badPoint()), "null", `""`, shr(1), q(ref.MulBase(ref.SNeg(k.secret())).Encode())}[c.R.IntN(7)]
				return o
			})
		},
		func() {
			alter("one public share missing", func(o obj) obj { pub(o)[2].v = drop(pub(o)[2].v.(obj), j-1); return o })
		},
		func() {
			alter("one party missing", func(o obj) obj {
				o[0].v = drop(ss(o), j-1)
				pub(o)[2].v = drop(pub(o)[2].v.(obj), j-1)
				return o
			})
		},
		func() {
			alter("a party too much", func(o obj) obj {
				pub(o)[2].v = append(pub(o)[2].v.(obj), member{strconv.Itoa(n + 1), q(c.encPoint())})
				return o
			})
		},
		func() {
			alter("a secret too much", func(o obj) obj {
				o[0].v = append(ss(o), member{[]string{strconv.Itoa(n + 1), "0", "65535", "65536", "-1", "x", ""}[c.R.IntN(7)], sec(1)})
				return o
			})
		},
		func() {
			alter("a party of another number", func(o obj) obj {
				s := []string{"0", strconv.Itoa(n + 1), "65535", "65536", "-1", "x", ""}[c.R.IntN(7)]
				ss(o)[j-1].k = s
				pub(o)[2].v.(obj)[j-1].k = s
				return o
			})
		},
		func() {
			alter("two secrets exchanged", func(ob obj) obj {
				ss(ob)[j-1].v, ss(ob)[o-1].v = ss(ob)[o-1].v, ss(ob)[j-1].v
				return ob
			})
		},
		func() {
			alter("two public shares exchanged", func(ob obj) obj {
				s := pub(ob)[2].v.(obj)
				s[j-1].v, s[o-1].v = s[o-1].v, s[j-1].v
				return ob
			})
		},
		func() {
			k2, text2 := c.keyText(n, t)
			_ = k2
			alter("the public part of another key", func(ob obj) obj {
				ob[1].v = text2(sec, func(i int) string { return q(k2.Public.Shares[party.ID(i)].Bytes()) })[1].v
				return ob
			})
		},
		func() { alter("doubled", func(o obj) obj { return append(o, o...) }) },
	}
	structure[c.Idx%len(structure)]()
	structure[c.R.IntN(len(structure))]()
	// text
	good := text(sec, shr).String()
	for i := 0; i < 3; i++ {
		try(string(c.textMutation([]byte(good))), "altered text")
	}
	try(good[:c.R.IntN(len(good))], "truncated")
	try([]string{"", "null", "0", `""`, "[]", "{}", "[" + good + "]", good + "}", good + good, " \n" + good + "\n ", "\xef\xbb\xbf" + good, "\x00", strings.Repeat("[", 20000), `{"Secrets":` + strings.Repeat(`{"1":`, 5000)}[c.R.IntN(14)], "structure")
	c.Sample(map[string]any{"t": t, "n": n})
}

// signerArguments: no file, wrong number of arguments.
func signerArguments(c *Case) {
	dir, done := c.workDir()
	defer done()
	n := 2 + c.R.IntN(3)
	k, text := c.keyText(n, 1)
	good := text(func(i int) string {
		return fmt.Sprintf(`{"id":%d,"secret":"%s"}`, i, b64(k.Secrets[party.ID(i)].Secret.Bytes()))
	}, func(i int) string { return `"` + b64(k.Public.Shares[party.ID(i)].Bytes()) + `"` }).String()
	os.WriteFile(filepath.Join(dir, "key.json"), []byte(good), 0o644)
	os.WriteFile(filepath.Join(dir, "empty"), nil, 0o644)
	os.Mkdir(filepath.Join(dir, "dir"), 0o755)
	os.Symlink("loop", filepath.Join(dir, "loop"))
	list := [][]string{{}, {"key.json"}, {"key.json", "a", "b"}, {"missing.json", "m"}, {"dir", "m"}, {"loop", "m"}, {"empty", "m"}, {"", "m"}, {"key.json/", "m"}, {"m", "key.json"}, {"/dev/null", "m"}, {"", ""}, {".", "m"}, {"key.json", "", ""}}
	a := list[c.Idx%len(list)]
	before := dirState(dir)
	r := c.tool(dir, "signer", a...)
	what := fmt.Sprintf("signer %q", a)
	c.noCrash(r, what)
	c.Check(!r.success() && !hexS.MatchString(r.out), "%s reports success: %s", what, clip(r.out, 300))
	c.Check(dirState(dir) == before, "%s changes files", what)
	// the same directory with the good file
	c.signs(dir, "key.json", c.argMessage(), k.Public2(), vAccept, "a consistent file")
	c.Check(dirState(dir) == before, "signer changes files")
	c.Count("bad arguments of signer", 1)
	c.Seen(fmt.Sprintf("%q", a), good)
}

// Public2 is the group key as a reference point.
func (k *Key) Public2() *ref.Point { return ref.MulBase(k.secret()) }

// manyParties: signer on keys of many parties.
func manyParties(c *Case) {
	dir, done := c.workDir()
	defer done()
	n := 10 + c.R.IntN(90)
	t := 1 + c.R.IntN(n-1)
	k, text := c.keyText(n, t)
	good := text(func(i int) string {
		return fmt.Sprintf(`{"id":%d,"secret":"%s"}`, i, b64(k.Secrets[party.ID(i)].Secret.Bytes()))
	}, func(i int) string { return `"` + b64(k.Public.Shares[party.ID(i)].Bytes()) + `"` }).String()
	os.WriteFile(filepath.Join(dir, "key.json"), []byte(good), 0o644)
	c.signs(dir, "key.json", c.argMessage(), k.Public2(), vAccept, fmt.Sprintf("a file of %d parties, t=%d", n, t))
	c.Seen(n, t, good)
}

func init() {
	register(&Prop{ID: "C21", Rule: "a run of a tool counts if its outcome, output and files were judged; distinct by arguments and key file",
		Parts: []Part{
			{Name: "every-t-n", Quick: 56, Thorough: 2800, Fn: toolsSmall},
			{Name: "large", Quick: 8, Thorough: 300, Fn: toolsLarge},
			{Name: "bad-arguments", Quick: 280, Thorough: 14000, Fn: badArguments},
			{Name: "unwritable", Quick: 16, Thorough: 400, Fn: unwritable},
			{Name: "key-files", Quick: 240, Thorough: 20000, Fn: badKeyFiles},
			{Name: "signer-arguments", Quick: 28, Thorough: 1400, Fn: signerArguments},
			{Name: "many-parties", Quick: 16, Thorough: 400, Fn: manyParties},
		},
		Least: map[string]int64{"keys made": 60, "printed signatures verified": 300, "bad arguments of keygen": 270, "unwritable key files": 16, "key files: usable": 200, "key files: unusable": 600, "bad arguments of signer": 28},
	})
}
