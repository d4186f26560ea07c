package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"runtime"
	"sync"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// ---- reference predicates: which byte strings are valid encodings ----

var (
	pointCache = map[[32]byte]bool{}
	pointMtx   sync.Mutex
)

func validPoint(b []byte) bool {
	if len(b) != 32 {
		return false
	}
	var k [32]byte
	copy(k[:], b)
	pointMtx.Lock()
	defer pointMtx.Unlock()
	v, ok := pointCache[k]
	if !ok {
		_, v = ref.Decode(b)
		if len(pointCache) > 200000 {
			pointCache = map[[32]byte]bool{}
		}
		pointCache[k] = v
	}
	return v
}

func validScalar(b []byte) bool { _, ok := ref.SCanon(b); return ok }

func validExponent(b []byte) bool {
	if len(b) < 2 {
		return false
	}
	n := int(binary.BigEndian.Uint16(b)) + 1
	if len(b) != 2+32*n {
		return false
	}
	for i := 0; i < n; i++ {
		if !validPoint(b[2+32*i : 34+32*i]) {
			return false
		}
	}
	return true
}

func validPayload(typ int, b []byte) bool {
	switch typ {
	case tKG1:
		return len(b) >= 64 && validScalar(b[:32]) && validScalar(b[32:64]) && validExponent(b[64:])
	case tKG2, tSG2:
		return validScalar(b)
	case tSG1:
		return len(b) == 64 && validPoint(b[:32]) && validPoint(b[32:])
	}
	return false
}

func validHeader(b []byte) bool {
	if len(b) < 5 {
		return false
	}
	typ, from, to := int(b[0]), binary.BigEndian.Uint16(b[1:]), binary.BigEndian.Uint16(b[3:])
	return typ >= 1 && typ <= 4 && from != 0 && (to != 0) == (typ == tKG2)
}

func validMessage(b []byte) bool { return validHeader(b) && validPayload(int(b[0]), b[5:]) }

// codec describes one binary format.
type codec struct {
	name  string
	fresh func() messages.FROSTMarshaler
	valid func(b []byte) bool
	make  func(c *Case) []byte
	// keep is the part of an accepted string that is represented by the value
	keep func(b []byte) []byte
}

// pool of encoded points, so that generating values is cheap
func (c *Case) encPoint() []byte {
	switch c.R.IntN(12) {
	case 0:
		return ref.Identity().Encode()
	case 1:
		return ref.Base.Encode()
	case 2:
		return ref.FromUniform(c.Bytes(64)).Encode()
	}
	return ref.MulBase(c.scalar()).Encode()
}

func (c *Case) encScalar() []byte { return ref.ToLE(c.special()) }

func (c *Case) encExponent() []byte {
	n := 1 + c.R.IntN(4)
	if c.R.IntN(12) == 0 {
		n = []int{16, 64, 255, 256, 257}[c.R.IntN(5)]
	}
	b := be16(party.ID(n - 1))
	for i := 0; i < n; i++ {
		if n > 20 && i > 3 {
			b = append(b, b[2+32*(i%4):34+32*(i%4)]...)
		} else {
			b = append(b, c.encPoint()...)
		}
	}
	return b
}

func (c *Case) encPayload(typ int) []byte {
	switch typ {
	case tKG1:
		return append(append(c.encScalar(), c.encScalar()...), c.encExponent()...)
	case tSG1:
		return append(c.encPoint(), c.encPoint()...)
	}
	return c.encScalar()
}

func (c *Case) encHeader() []byte {
	typ := 1 + c.R.IntN(4)
	to := party.ID(0)
	if typ == tKG2 {
		to = c.id()
	}
	return wire(typ, c.id(), to)
}

func (c *Case) encMessage() []byte {
	h := c.encHeader()
	return append(h, c.encPayload(int(h[0]))...)
}

func whole(b []byte) []byte { return b }

var codecs = []codec{
	{"Message", func() messages.FROSTMarshaler { return new(messages.Message) }, validMessage, func(c *Case) []byte { return c.encMessage() }, whole},
	{"Header", func() messages.FROSTMarshaler { return new(messages.Header) }, validHeader, func(c *Case) []byte { return c.encHeader() }, func(b []byte) []byte { return b[:5] }},
	{"KeyGen1", func() messages.FROSTMarshaler { return new(messages.KeyGen1) }, func(b []byte) bool { return validPayload(tKG1, b) }, func(c *Case) []byte { return c.encPayload(tKG1) }, whole},
	{"KeyGen2", func() messages.FROSTMarshaler { return new(messages.KeyGen2) }, validScalar, func(c *Case) []byte { return c.encScalar() }, whole},
	{"Sign1", func() messages.FROSTMarshaler { return new(messages.Sign1) }, func(b []byte) bool { return validPayload(tSG1, b) }, func(c *Case) []byte { return c.encPayload(tSG1) }, whole},
	{"Sign2", func() messages.FROSTMarshaler { return new(messages.Sign2) }, validScalar, func(c *Case) []byte { return c.encScalar() }, whole},
	{"Schnorr", func() messages.FROSTMarshaler { return new(zk.Schnorr) }, func(b []byte) bool {
		return len(b) == 64 && validScalar(b[:32]) && validScalar(b[32:])
	}, func(c *Case) []byte { return append(c.encScalar(), c.encScalar()...) }, whole},
	{"Exponent", func() messages.FROSTMarshaler { return new(polynomial.Exponent) }, validExponent, func(c *Case) []byte { return c.encExponent() }, whole},
	{"Signature", func() messages.FROSTMarshaler { return new(eddsa.Signature) }, func(b []byte) bool {
		return len(b) == 64 && validPoint(b[:32]) && validScalar(b[32:])
	}, func(c *Case) []byte { return append(c.encPoint(), c.encScalar()...) }, whole},
}

// judge decodes b and compares with the reference predicate.
func (c *Case) judge(k *codec, b []byte, what string) messages.FROSTMarshaler {
	v := k.fresh()
	in := append([]byte{}, b...)
	err := v.UnmarshalBinary(in)
	want := k.valid(b)
	c.Eval(1)
	c.Check(bytes.Equal(in, b), "decoding a %s alters its input", k.name)
	if !want {
		c.Check(err != nil, "%s: a malformed encoding is accepted (%s): %s", k.name, what, hexClip(b))
		c.Count(k.name+" encodings that must be refused", 1)
		return nil
	}
	c.Check(err == nil, "%s: a valid encoding is refused (%s): %v: %s", k.name, what, err, hexClip(b))
	c.Count(k.name+" encodings that must be accepted", 1)
	c.encodes(k, v, k.keep(b), what)
	// the value does not share memory with the input
	for i := range in {
		in[i] ^= 0xff
	}
	out, err := v.MarshalBinary()
	c.Check(err == nil && bytes.Equal(out, k.keep(b)), "%s: a decoded value changes with the bytes it was decoded from", k.name)
	return v
}

func hexClip(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x… (%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// encodes checks that v encodes to exactly b in all ways.
func (c *Case) encodes(k *codec, v messages.FROSTMarshaler, b []byte, what string) {
	out, err := v.MarshalBinary()
	c.Check(err == nil, "%s: a value cannot be encoded (%s): %v", k.name, what, err)
	c.Check(bytes.Equal(out, b), "%s: encodes to %s instead of %s (%s)", k.name, hexClip(out), hexClip(b), what)
	c.Check(v.Size() == len(b), "%s: Size() is %d for an encoding of %d bytes", k.name, v.Size(), len(b))
	// appended to something, with or without room
	pre := c.Bytes(c.R.IntN(40))
	buf := make([]byte, len(pre), len(pre)+c.R.IntN(2)*(len(b)+c.R.IntN(40)))
	copy(buf, pre)
	app, err := v.BytesAppend(buf)
	c.Check(err == nil && bytes.Equal(app, append(append([]byte{}, pre...), b...)), "%s: BytesAppend(%x) gives %s, %v", k.name, pre, hexClip(app), err)
	c.Check(bytes.Equal(buf, pre), "%s: BytesAppend alters the existing bytes", k.name)
	app, err = v.BytesAppend(nil)
	c.Check(err == nil && bytes.Equal(app, b), "%s: BytesAppend(nil) gives %s, %v", k.name, hexClip(app), err)
	// encoding again gives the same, in other memory
	for i := range out {
		out[i] ^= 0xa5
	}
	out2, err := v.MarshalBinary()
	c.Check(err == nil && bytes.Equal(out2, b), "%s: a second encoding differs", k.name)
	c.Eval(4)
}

// equality compares two decoded values.
func (c *Case) equality(k *codec, a, b messages.FROSTMarshaler) {
	ea, _ := a.MarshalBinary()
	eb, _ := b.MarshalBinary()
	want := bytes.Equal(ea, eb)
	c.Check(a.Equal(b) == want, "%s: Equal says %v for encodings %s and %s", k.name, a.Equal(b), hexClip(ea), hexClip(eb))
	c.Check(b.Equal(a) == want, "%s: Equal is not symmetric for %s and %s", k.name, hexClip(ea), hexClip(eb))
	c.Count(fmt.Sprintf("comparisons that must be %v", want), 1)
	c.Eval(2)
}

// roundTrips: valid values of every kind.
func roundTrips(c *Case) {
	k := &codecs[c.Idx%len(codecs)]
	b := k.make(c)
	c.Check(k.valid(b), "harness: generated an invalid %s", k.name)
	a := c.judge(k, b, "generated")
	// decoded twice: equal
	a2 := c.judge(k, b, "generated")
	c.equality(k, a, a2)
	c.Check(a.Equal(a), "%s: a value is not equal to itself", k.name)
	// an unrelated one, and one that differs in a single field
	c.equality(k, a, c.judge(k, k.make(c), "another"))
	for _, o := range c.oneField(k, b) {
		if v := c.judge(k, o, "one field replaced"); v != nil {
			c.equality(k, a, v)
			c.Count("values differing in one field", 1)
		}
	}
	// values of other types are never equal
	for i := range codecs {
		if codecs[i].name != k.name && c.R.IntN(3) == 0 {
			o := codecs[i].fresh()
			if o.UnmarshalBinary(codecs[i].make(c)) == nil {
				if k.name == "Message" && codecs[i].name == "Header" {
					continue
				}
				c.Check(!a.Equal(o), "a %s equals a %s", k.name, codecs[i].name)
			}
		}
	}
	c.Check(!a.Equal(nil) && !a.Equal(42), "%s equals something of another type", k.name)
	c.Seen(b)
	c.Sample(map[string]any{"kind": k.name, "encoding": hexClip(b)})
}

// oneField gives encodings that differ from b in one 2- or 32-byte field.
func (c *Case) oneField(k *codec, b []byte) [][]byte {
	var out [][]byte
	type fld struct{ off, kind int } // kinds: 0 scalar, 1 point, 2 id
	var fs []fld
	pay := func(off, typ int) {
		switch typ {
		case tKG1:
			fs = append(fs, fld{off, 0}, fld{off + 32, 0})
			for o := off + 66; o+32 <= len(b); o += 32 {
				fs = append(fs, fld{o, 1})
			}
		case tKG2, tSG2:
			fs = append(fs, fld{off, 0})
		case tSG1:
			fs = append(fs, fld{off, 1}, fld{off + 32, 1})
		}
	}
	hdr := func() {
		fs = append(fs, fld{1, 2})
		if b[0] == tKG2 {
			fs = append(fs, fld{3, 2})
		}
	}
	switch k.name {
	case "Message":
		hdr()
		pay(5, int(b[0]))
		// same fields under another type
		if b[0] == tKG1 || b[0] == tSG1 || b[0] == tSG2 {
			for _, t := range []byte{tKG1, tSG1, tSG2} {
				o := append([]byte{}, b...)
				o[0] = t
				out = append(out, o)
			}
		}
	case "Header":
		hdr()
	case "KeyGen1":
		pay(0, tKG1)
	case "KeyGen2", "Sign2":
		pay(0, tKG2)
	case "Sign1":
		pay(0, tSG1)
	case "Schnorr":
		fs = append(fs, fld{0, 0}, fld{32, 0})
	case "Signature":
		fs = append(fs, fld{0, 1}, fld{32, 0})
	case "Exponent":
		for o := 2; o+32 <= len(b); o += 32 {
			fs = append(fs, fld{o, 1})
		}
		// one coefficient more or less
		n := binary.BigEndian.Uint16(b)
		o := append(append(be16(party.ID(n+1)), b[2:]...), c.encPoint()...)
		out = append(out, o)
		if n > 0 {
			out = append(out, append(be16(party.ID(n-1)), b[2:len(b)-32]...))
		}
	}
	if len(fs) > 12 {
		c.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		fs = fs[:12]
	}
	for _, f := range fs {
		o := append([]byte{}, b...)
		switch f.kind {
		case 0:
			x := ref.LE(b[f.off : f.off+32])
			switch c.R.IntN(3) {
			case 0:
				copy(o[f.off:], c.encScalar())
			case 1:
				copy(o[f.off:], ref.ToLE(ref.SNeg(x)))
			case 2:
				copy(o[f.off:], ref.ToLE(ref.SAdd(x, ref.SInt(1))))
			}
		case 1:
			p, _ := ref.Decode(b[f.off : f.off+32])
			if c.R.IntN(2) == 0 {
				copy(o[f.off:], p.Neg().Encode())
			} else {
				copy(o[f.off:], c.encPoint())
			}
		case 2:
			if c.R.IntN(2) == 0 {
				copy(o[f.off:], be16(c.id()))
			} else {
				o[f.off+c.R.IntN(2)] ^= 1 << c.R.IntN(8)
			}
		}
		out = append(out, o)
	}
	return out
}

// byteMutations replaces one byte by all of its values.
func byteMutations(c *Case) {
	k := &codecs[c.Idx%len(codecs)]
	b := k.make(c)
	for len(b) > 300 {
		b = k.make(c)
	}
	// positions round-robin over the cases, so that all are visited
	round := c.Idx / len(codecs)
	for j := 0; j < 2; j++ {
		pos := (round*2 + j) * 7919 % len(b)
		if round%3 == 0 && pos >= 8 { // the start matters most
			pos %= 8
		}
		for v := 0; v < 256; v++ {
			m := append([]byte{}, b...)
			m[pos] = byte(v)
			c.judge(k, m, fmt.Sprintf("byte %d set to %d", pos, v))
		}
		c.Seen(k.name, pos, b[0])
	}
	c.Count("byte positions mutated exhaustively", 2)
}

// fieldCorruptions: values just outside what is valid.
func (c *Case) badScalar() []byte {
	b := make([]byte, 32)
	switch c.R.IntN(5) {
	case 0: // L + small
		x := ref.SInt(int64(c.R.IntN(3)))
		x.Add(x, ref.L)
		copy(b, ref.ToLE(x))
	case 1: // a valid one plus a multiple of L
		x := c.special()
		for i := 1 + c.R.IntN(14); i > 0; i-- {
			x.Add(x, ref.L)
		}
		copy(b, ref.ToLE(x))
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	case 3:
		copy(b, c.encScalar())
		b[31] |= 0x80 >> c.R.IntN(3)
	case 4:
		copy(b, c.Bytes(32))
		b[31] |= 0x20
	}
	return b
}

func (c *Case) badPoint() []byte {
	for {
		var b []byte
		switch c.R.IntN(7) {
		case 0: // negative
			b = c.encPoint()
			x := ref.LE(b)
			x.Sub(ref.P, x)
			b = ref.ToLE(x)
		case 1: // not reduced
			x := ref.SInt(int64(c.R.IntN(19)))
			x.Add(x, ref.P)
			b = ref.ToLE(x)
		case 2:
			b = c.Bytes(32)
			b[0] &= 0xfe
			b[31] &= 0x7f
		case 3:
			b = c.encPoint()
			b[31] |= 0x80
		case 4: // an Ed25519 encoding
			b = ref.MulBase(c.scalar()).EncodeEd()
		case 5:
			b = bytes.Repeat([]byte{0xff}, 32)
			b[31] = byte(c.R.IntN(256))
		case 6:
			b = c.encPoint()
			b[c.R.IntN(32)] ^= 1 << c.R.IntN(8)
		}
		if !validPoint(b) {
			return b
		}
	}
}

func corruptions(c *Case) {
	k := &codecs[c.Idx%len(codecs)]
	b := k.make(c)
	// truncated and extended
	if len(b) < 300 {
		for i := 0; i < len(b); i++ {
			c.judge(k, b[:i], "truncated")
		}
	}
	for i := 0; i < 6; i++ {
		c.judge(k, b[:c.R.IntN(len(b))], "truncated")
		c.judge(k, append(append([]byte{}, b...), c.Bytes(1+c.R.IntN(70))...), "extended")
	}
	for _, n := range []int{1, 2, 31, 32, 33, 64} {
		c.judge(k, append(append([]byte{}, b...), make([]byte, n)...), "extended by zeros")
		c.judge(k, append(append([]byte{}, b...), c.Bytes(n)...), "extended")
		if n <= len(b) {
			c.judge(k, append(append([]byte{}, b...), b[len(b)-n:]...), "end repeated")
			c.judge(k, b[n:], "start removed")
			c.judge(k, b[:len(b)-n], "end removed")
		}
		c.judge(k, append(c.Bytes(n), b...), "prefixed")
	}
	c.judge(k, nil, "empty")
	// every field in turn
	for off := 0; off+32 <= len(b) && off < 400; off++ {
		for _, f := range [][]byte{c.badScalar(), c.badPoint()} {
			if (off%32 == 0 || off%32 == 2 || off%32 == 5 || off%32 == 7) && off < 40+c.R.IntN(400) {
				m := append([]byte{}, b...)
				copy(m[off:], f)
				c.judge(k, m, fmt.Sprintf("field at %d replaced", off))
			}
		}
	}
	// lengths and degrees that do not fit
	if k.name == "Exponent" || k.name == "KeyGen1" || k.name == "Message" {
		off := map[string]int{"Exponent": 0, "KeyGen1": 64, "Message": 69}[k.name]
		if off+2 <= len(b) {
			d := int(binary.BigEndian.Uint16(b[off:]))
			for _, x := range []int{d + 1, d - 1, 0, 1, d + 256, d + 2048, d ^ 0x8000, 65535, 65534, d<<8 | d>>8} {
				m := append([]byte{}, b...)
				copy(m[off:], be16(party.ID(x)))
				c.judge(k, m, fmt.Sprintf("degree %d instead of %d", x, d))
			}
			// numbers of coefficients that agree with the degree modulo a power of two
			for _, x := range [][2]int{{65535, 0}, {255, 0}, {256, 1}, {257, 2}, {32767, 0}, {32768, 1}, {2047, 0}, {2048, 1}, {65534, 0}, {0, 0}, {65535, 1}} {
				m := append(append([]byte{}, b[:off]...), be16(party.ID(x[0]))...)
				for i := 0; i < x[1]; i++ {
					m = append(m, c.encPoint()...)
				}
				c.judge(k, m, fmt.Sprintf("degree %d with %d coefficients", x[0], x[1]))
			}
		}
	}
	// headers
	if k.name == "Header" || k.name == "Message" {
		for typ := 0; typ < 8; typ++ {
			for _, from := range []int{0, 1, 256, 65535} {
				for _, to := range []int{0, 1, 256, 65535} {
					m := append([]byte{}, b...)
					m[0] = byte(typ)
					copy(m[1:], be16(party.ID(from)))
					copy(m[3:], be16(party.ID(to)))
					if typ >= 1 && typ <= 4 && k.name == "Message" {
						m = append(m[:5], c.encPayload(typ)...)
					}
					c.judge(k, m, "header")
				}
			}
		}
		m := append([]byte{}, b...)
		for typ := 0; typ < 256; typ++ {
			m[0] = byte(typ)
			c.judge(k, m, "type")
		}
	}
	c.Seen(b)
}

// builtMessages: messages made by the constructors, encoded and decoded.
func builtMessages(c *Case) {
	from := c.id()
	var m *messages.Message
	var want []byte
	typ := 1 + c.Idx%4
	switch typ {
	case tKG1:
		n := party.Size(1 + c.R.IntN(6))
		if c.R.IntN(20) == 0 {
			n = party.Size(200 + c.R.IntN(200))
		}
		x := bigSc(c.special())
		poly := polynomial.NewPolynomial(n, x)
		ex := polynomial.NewPolynomialExponent(poly)
		pr := zk.NewSchnorrProof(from, ex.Constant(), zeroCtx, x)
		m = messages.NewKeyGen1(from, pr, ex)
		pb, err1 := pr.MarshalBinary()
		eb, err2 := ex.MarshalBinary()
		c.Check(err1 == nil && err2 == nil, "proof or commitments cannot be encoded: %v %v", err1, err2)
		c.Check(bytes.Equal(pb, append(ref.ToLE(scBig(&pr.S)), ref.ToLE(scBig(&pr.R))...)), "a proof does not encode as S, R")
		c.Check(len(eb) == 2+32*(int(n)+1) && bytes.Equal(eb[:2], be16(n)), "a polynomial of degree %d encodes to %d bytes, starting %x", n, len(eb), eb[:2])
		c.Check(bytes.Equal(eb[2:34], ex.Constant().Bytes()), "the constant term does not come first")
		c.Check(ex.Degree() == n, "Degree() is %d instead of %d", ex.Degree(), n)
		want = wire(typ, from, 0, pb, eb)
	case tKG2:
		to := c.id()
		x := c.special()
		m = messages.NewKeyGen2(from, to, bigSc(x))
		want = wire(typ, from, to, ref.ToLE(x))
	case tSG1:
		d, e := ref.MulBase(c.special()), ref.MulBase(c.special())
		m = messages.NewSign1(from, c.rerep(ptEl(d)), c.rerep(ptEl(e)))
		want = wire(typ, from, 0, d.Encode(), e.Encode())
	case tSG2:
		x := c.special()
		m = messages.NewSign2(from, bigSc(x))
		want = wire(typ, from, 0, ref.ToLE(x))
	}
	k := &codecs[0]
	c.encodes(k, m, want, "constructed")
	d := c.judge(k, want, "constructed")
	c.Check(m.Equal(d) && d.Equal(m), "a constructed message does not equal the decoded one: %s", hexClip(want))
	// copies of the value encode alike
	h := m.Header
	c.encodes(&codecs[1], &h, want[:5], "constructed")
	c.Check(h.Equal(m.Header) && h.Equal(&m.Header), "a header does not equal its copy")
	c.Check(m.IsBroadcast() == (typ != tKG2), "IsBroadcast is wrong for type %d", typ)
	// a signature in another representation
	r, s := ref.MulBase(c.special()), c.special()
	sig := &eddsa.Signature{R: *c.rerep(ptEl(r)), S: *bigSc(s)}
	sk := &codecs[len(codecs)-1]
	c.encodes(sk, sig, append(r.Encode(), ref.ToLE(s)...), "constructed")
	c.equality(sk, sig, c.judge(sk, append(r.Encode(), ref.ToLE(s)...), "constructed"))
	c.Count("constructed messages", 1)
	c.Seen(want)

	// what is no message is not encoded as one: encoding fails or gives what decodes to an equal one
	bad := *m
	switch c.R.IntN(4) {
	case 0:
		bad.From = 0
	case 1:
		if bad.To == 0 {
			bad.To = c.id()
		} else {
			bad.To = 0
		}
	case 2:
		bad.Type = messages.MessageType([]int{0, 5, 6, 128, 255}[c.R.IntN(5)])
	case 3:
		bad.KeyGen1, bad.KeyGen2, bad.Sign1, bad.Sign2 = nil, nil, nil, nil
	}
	if out, err := bad.MarshalBinary(); err == nil {
		c.Check(validMessage(out), "a message that cannot be decoded is encoded without error: %s", hexClip(out))
	}
	c.Eval(4)
}

func init() {
	register(&Prop{ID: "C09", Parts: []Part{
		{"roundtrip", 1800, 60000, roundTrips},
		{"bytes", 450, 18000, byteMutations},
		{"corrupt", 270, 9000, corruptions},
		{"built", 800, 30000, builtMessages},
		{"every-ID", 65536 / idChunk, 65536 / idChunk, headersOfEveryID},
		{"sizes", counts, 100 * counts, exponentsOfEverySize},
		{"objects", 600, 30000, messageHistory},
	}, Rule: "an execution counts if a byte string was decoded and compared with the reference predicate; distinct by value, or by kind and position of the byte replaced by all 256 values",
		Least: map[string]int64{"IDs enumerated": 65536, "constructed messages": 600, "byte positions mutated exhaustively": 700,
			"comparisons that must be true": 1500, "comparisons that must be false": 3000,
			"Message encodings that must be accepted": 1000, "Message encodings that must be refused": 5000}})
}

// ---- C08 ----

// decoder is a decoder of any kind, for hostile input.
type decoder struct {
	name string
	make func(c *Case) []byte
	run  func(b []byte) error
}

func jsonKinds(c *Case) []byte {
	n := 2 + c.R.IntN(4)
	k := c.refDeal(c.ids(n), 1+c.R.IntN(n-1))
	switch c.R.IntN(3) {
	case 0:
		b, _ := json.Marshal(k.Public)
		return b
	case 1:
		b, _ := json.Marshal(k.Secrets[k.IDs[0]])
		return b
	}
	b, _ := json.Marshal(k.Public.GroupKey)
	return b
}

// useExponent does with a decoded polynomial what can be done with every polynomial.
func useExponent(p *polynomial.Exponent) {
	p.Degree()
	p.Constant()
	q := p.Copy()
	q.Add(p)
	q.Reset()
	p.Evaluate(party.ID(2).Scalar())
}

var decoders = func() []decoder {
	var ds []decoder
	for i := range codecs {
		k := &codecs[i]
		ds = append(ds, decoder{k.name, k.make, func(b []byte) error {
			v := k.fresh()
			err := v.UnmarshalBinary(b)
			if err == nil {
				v.Size()
				v.MarshalBinary()
				v.Equal(v)
				switch x := v.(type) {
				case *polynomial.Exponent:
					useExponent(x)
				case *messages.KeyGen1:
					useExponent(x.Commitments)
				case *messages.Message:
					if x.KeyGen1 != nil {
						useExponent(x.KeyGen1.Commitments)
					}
				}
			}
			return err
		}})
	}
	ds = append(ds,
		decoder{"SecretShare binary", func(c *Case) []byte { return append(be16(c.id()), c.encScalar()...) },
			func(b []byte) error { return new(eddsa.SecretShare).UnmarshalBinary(b) }},
		decoder{"SecretShare JSON", jsonKinds, func(b []byte) error {
			var s eddsa.SecretShare
			err := json.Unmarshal(b, &s)
			if e := new(eddsa.SecretShare).UnmarshalJSON(b); err != nil && e == nil && !json.Valid(b) {
				return e
			}
			return err
		}},
		decoder{"Public JSON", jsonKinds, func(b []byte) error {
			var p eddsa.Public
			new(eddsa.Public).UnmarshalJSON(b)
			err := json.Unmarshal(b, &p)
			if err == nil && p.GroupKey != nil {
				p.GroupKey.ToEd25519()
				p.Equal(&p)
				p.MarshalJSON()
			}
			return err
		}},
		decoder{"PublicKey JSON", jsonKinds, func(b []byte) error {
			var p eddsa.PublicKey
			new(eddsa.PublicKey).UnmarshalJSON(b)
			return json.Unmarshal(b, &p)
		}},
		decoder{"Element", func(c *Case) []byte { return c.encPoint() }, func(b []byte) error {
			e := ristretto.NewIdentityElement()
			_, err := e.SetCanonicalBytes(b)
			e.Bytes()
			e.BytesEd25519()
			ristretto.NewIdentityElement().SetUniformBytes(b)
			return err
		}},
		decoder{"Element text", func(c *Case) []byte { return []byte(base64.StdEncoding.EncodeToString(c.encPoint())) }, func(b []byte) error {
			return ristretto.NewIdentityElement().UnmarshalText(b)
		}},
		decoder{"ID text", func(c *Case) []byte { return []byte(fmt.Sprint(c.R.IntN(70000))) }, func(b []byte) error {
			var id party.ID
			return id.UnmarshalText(b)
		}},
		decoder{"ID bytes", func(c *Case) []byte { return be16(c.id()) }, func(b []byte) error { _, err := party.FromBytes(b); return err }},
	)
	return ds
}()

// hostile draws an input: random, or a valid one mutated.
func (c *Case) hostile(valid func(c *Case) []byte) []byte {
	switch c.R.IntN(10) {
	case 0:
		return c.Bytes(c.R.IntN(80))
	case 1: // a plausible header, then anything
		b := c.encHeader()
		return append(b, c.Bytes(c.R.IntN(200))...)
	case 2: // extreme degrees
		b := wire(tKG1, c.id(), 0, c.encScalar(), c.encScalar(), be16([]party.ID{0, 1, 255, 256, 2047, 2048, 2049, 32767, 32768, 65534, 65535}[c.R.IntN(11)]))
		n := c.R.IntN(5) * 32
		b = append(b, c.Bytes(n)...)
		switch c.R.IntN(4) {
		case 0:
			return b[69:]
		case 1:
			return b[5:]
		}
		return b
	case 3:
		return nil
	}
	b := append([]byte{}, valid(c)...)
	for k := c.R.IntN(4); k >= 0; k-- {
		if len(b) == 0 {
			break
		}
		switch c.R.IntN(9) {
		case 0, 1:
			b[c.R.IntN(len(b))] = byte(c.R.Uint32())
		case 2:
			b[c.R.IntN(len(b))] ^= 1 << c.R.IntN(8)
		case 3:
			b = b[:c.R.IntN(len(b)+1)]
		case 4:
			b = append(b, c.Bytes(c.R.IntN(70))...)
		case 5:
			i, j := c.R.IntN(len(b)+1), c.R.IntN(len(b)+1)
			if i > j {
				i, j = j, i
			}
			b = append(b[:i:i], b[j:]...)
		case 6:
			i := c.R.IntN(len(b))
			n := min(32, len(b)-i)
			copy(b[i:i+n], bytes.Repeat([]byte{0xff}, n))
		case 7:
			i := c.R.IntN(len(b))
			n := min(32, len(b)-i)
			copy(b[i:i+n], make([]byte, n))
		case 8:
			i := c.R.IntN(len(b))
			b = append(b[:i:i], append(c.Bytes(c.R.IntN(4)), b[i:]...)...)
		}
	}
	return b
}

var jsonPieces = []string{`null`, `{}`, `[]`, `0`, `-1`, `""`, `"x"`, `{"t":1}`, `{"t":-1,"groupkey":null,"shares":null}`,
	`{"t":65535,"groupkey":null,"shares":{}}`, `{"t":65536,"shares":{}}`, `{"t":1e3}`, `{"t":99999999999999999999}`, `{"shares":{"0":null}}`,
	`{"shares":{"1":null,"2":null},"t":1}`, `{"shares":{"65536":"AA=="}}`, `{"shares":{"-1":"AA=="}}`, `{"shares":{"":"AA=="}}`,
	`{"groupkey":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=","t":0,"shares":{}}`,
	`{"groupkey":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=","t":1,"shares":{"1":null,"2":null}}`,
	`{"groupkey":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=","t":0,"shares":{"0":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA="}}`,
	`{"groupkey":{},"t":0,"shares":[]}`, `{"id":0}`, `{"id":-1,"secret":""}`, `{"id":1,"secret":null}`, `{"id":65536,"secret":"AAAA"}`,
	`{"id":1,"secret":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"}`, `{"id":1.5}`, `{"id":"1"}`, `{"ID":null,"SECRET":[1,2,3]}`}

// hostileDecoding runs decoders on hostile input, watching memory.
func hostileDecoding(c *Case) {
	d := &decoders[c.Idx%len(decoders)]
	var ms0, ms1 runtime.MemStats
	for k := 0; k < 24; k++ {
		b := c.hostile(d.make)
		if k%4 == 3 && len(d.name) > 4 && d.name[len(d.name)-4:] == "JSON" {
			b = []byte(jsonPieces[c.R.IntN(len(jsonPieces))])
		}
		var err error
		if k%6 == 0 {
			runtime.ReadMemStats(&ms0)
		}
		err = d.run(append([]byte{}, b...))
		if k%6 == 0 {
			runtime.ReadMemStats(&ms1)
			got := ms1.TotalAlloc - ms0.TotalAlloc
			c.Check(got < 300000+2000*uint64(len(b)), "decoding %d bytes as %s allocates %d bytes: %s", len(b), d.name, got, hexClip(b))
			c.Count("memory measurements", 1)
		}
		if err == nil {
			c.Count("hostile inputs accepted", 1)
		} else {
			c.Count("hostile inputs refused", 1)
		}
		c.Eval(1)
		c.Seen(d.name, b)
	}
}

// bigInputs: long inputs and extreme degrees.
func bigInputs(c *Case) {
	n := []int{1000, 2047, 2048, 4096, 9000}[c.R.IntN(5)]
	if c.Thoro && c.R.IntN(20) == 0 {
		n = 65536
	}
	b := be16(party.ID(n - 1))
	p := c.encPoint()
	for i := 0; i < n; i++ {
		b = append(b, p...)
	}
	switch c.Idx % 4 {
	case 0: // valid
	case 1: // the last one is bad
		copy(b[len(b)-32:], c.badPoint())
	case 2:
		copy(b, be16(party.ID(c.R.IntN(65536))))
	case 3: // enormous text
		b = bytes.Repeat([]byte("9"), 32*n)
	}
	var ms0, ms1 runtime.MemStats
	pay := append(append(c.encScalar(), c.encScalar()...), b...)
	for _, x := range []struct {
		name string
		f    func() error
	}{
		{"Exponent", func() error { return new(polynomial.Exponent).UnmarshalBinary(b) }},
		{"Message", func() error { return new(messages.Message).UnmarshalBinary(wire(tKG1, 1, 0, pay)) }},
		{"ID text", func() error { return new(party.ID).UnmarshalText(b) }},
		{"Element text", func() error { return ristretto.NewIdentityElement().UnmarshalText(b) }},
		{"Signature", func() error { return new(eddsa.Signature).UnmarshalBinary(b) }},
		{"Public JSON", func() error { return new(eddsa.Public).UnmarshalJSON(append([]byte(`{"t":1,"shares":{"1":`), b...)) }},
		{"deep JSON", func() error { return new(eddsa.Public).UnmarshalJSON(bytes.Repeat([]byte(`{"shares":`), n)) }},
	} {
		runtime.ReadMemStats(&ms0)
		err := x.f()
		runtime.ReadMemStats(&ms1)
		got := ms1.TotalAlloc - ms0.TotalAlloc
		c.Check(got < 300000+2000*uint64(len(b)), "decoding %d bytes as %s allocates %d bytes", len(b), x.name, got)
		c.Count("memory measurements", 1)
		_ = err
		c.Eval(1)
	}
	c.Seen(n, c.Idx%4)
}

// hostileSessions hands decoded garbage to sessions in all stages.
func hostileSessions(c *Case) {
	n := 2 + c.R.IntN(3)
	t := 1 + c.R.IntN(n-1)
	sign := c.Idx%2 == 0
	r := c.recordSession(n, t, sign)
	x := r.ids[c.R.IntN(len(r.ids))]
	nd := c.fresh(r, x)
	in := r.in[x]
	order := c.R.Perm(len(in))
	start := c.R.IntN(len(in) + 2)
	stale := new(messages.Message) // decoded into again and again
	hist := ""
	for i := 0; i <= len(in)+1; i++ {
		if i == start {
			nd.St.ProcessAll()
		}
		for k := c.R.IntN(4); k > 0; k-- {
			b := c.hostile(func(c *Case) []byte {
				switch c.R.IntN(6) {
				case 0, 1:
					return c.encMessage()
				case 2: // a plausible one from a participant
					h := c.encHeader()
					copy(h[1:], be16(r.ids[c.R.IntN(len(r.ids))]))
					if h[0] == tKG2 {
						copy(h[3:], be16(x))
					}
					return append(h, c.encPayload(int(h[0]))...)
				}
				return in[c.R.IntN(len(in))]
			})
			if len(b) >= 5 && c.R.IntN(2) == 0 {
				copy(b[1:], be16(r.ids[c.R.IntN(len(r.ids))]))
				if c.R.IntN(2) == 0 {
					b[3], b[4] = 0, 0
					if b[0] == tKG2 {
						copy(b[3:], be16(x))
					}
				}
			}
			m := new(messages.Message)
			if c.R.IntN(3) == 0 {
				m = stale
			}
			err := m.UnmarshalBinary(b)
			if c.R.IntN(8) == 0 { // a field changed after decoding
				m.Type = messages.MessageType(c.R.IntN(7))
			}
			herr := nd.St.HandleMessage(m)
			if herr == nil && m == stale {
				stale = new(messages.Message) // the session keeps it
			}
			if c.R.IntN(3) > 0 {
				nd.St.ProcessAll()
			}
			// looking at it must not crash either
			m.Size()
			m.MarshalBinary()
			m.Equal(m)
			hist += fmt.Sprintf("%v%v%d ", err == nil, herr == nil, min(len(b), 5))
			c.Count("decoded hostile messages handed to sessions", 1)
			if err != nil {
				c.Count("of these, with a decoding error", 1)
			}
			c.Eval(1)
		}
		if i < len(in) {
			nd.St.HandleMessage(c.mustDecode(in[order[i]]))
			if c.R.IntN(4) > 0 {
				nd.St.ProcessAll()
			}
		}
	}
	nd.St.ProcessAll()
	c.Count(fmt.Sprintf("sessions that end: %v", nd.done()), 1)
	if nd.done() {
		if nd.St.Err() != nil {
			c.Check(nd.empty(), "an aborted session has output")
			c.Count("sessions that abort", 1)
		} else {
			c.Check(!nd.empty(), "a successful session has no output")
		}
	}
	c.Seen(sign, fp(r.ids), x, hist)
	c.Sample(map[string]any{"sign": sign, "ids": fp(r.ids), "decoded/accepted/length": clip(hist, 200)})
}

func init() {
	register(&Prop{ID: "C08", Parts: []Part{
		{"decoders", 3400, 200000, hostileDecoding},
		{"big", 40, 400, bigInputs},
		{"sessions", 1600, 60000, hostileSessions},
	}, Rule: "an execution counts if hostile bytes were decoded, or decoded messages were handed to a session; distinct by decoder and input, or by session and history",
		Least: map[string]int64{"hostile inputs refused": 20000, "hostile inputs accepted": 2000, "memory measurements": 5000,
			"decoded hostile messages handed to sessions": 4000, "of these, with a decoding error": 1000, "sessions that abort": 50}})
}
