// Package ref is an independent implementation, in math/big arithmetic, of everything
// the oracles need: integers modulo the group order, the edwards25519 curve, its Ed25519
// and ristretto255 (RFC 9496) encodings, and Ed25519 verification. It shares no code with
// the library under test or with filippo.io/edwards25519.
package ref

import (
	"crypto/sha512"
	"math/big"
)

func dec(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return x
}

var (
	zero = big.NewInt(0)
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	// P is the field prime 2^255-19, L the group order.
	P = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	L = new(big.Int).Add(new(big.Int).Lsh(one, 252), dec("27742317777372353535851937790883648493"))
	// D is the curve constant -121665/121666.
	D      = fmul(fneg(big.NewInt(121665)), finv(big.NewInt(121666)))
	d2     = fadd(D, D)
	SqrtM1 = dec("19681161376707505956807079304988542015446066515923890162744021073123829784752")
	// constants of RFC 9496, section 4.1
	sqrtADMinusOne = dec("25063068953384623474111414158702152701244531502492656460079210482610430750235")
	invSqrtAMinusD = dec("54469307008909316920995813868745141605393597292927456921205312896311721017578")
	oneMinusDSq    = dec("1159843021668779879193775521855586647937357759715417654439879720876111806838")
	dMinusOneSq    = dec("40440834346308536858101042469323190826248399146238708352240133220865137265952")
	sqrtExp        = new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(5)), 3) // (p-5)/8
	Base           *Point
	baseTable      [64][16]*Point
)

func fmod(x *big.Int) *big.Int    { return x.Mod(x, P) }
func fadd(a, b *big.Int) *big.Int { return fmod(new(big.Int).Add(a, b)) }
func fsub(a, b *big.Int) *big.Int { return fmod(new(big.Int).Sub(a, b)) }
func fmul(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
func fneg(a *big.Int) *big.Int    { return fmod(new(big.Int).Neg(a)) }
func finv(a *big.Int) *big.Int {
	if a.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(a, P)
}
func isNeg(a *big.Int) bool { return a.Bit(0) == 1 }
func fabs(a *big.Int) *big.Int {
	if isNeg(a) {
		return fneg(a)
	}
	return new(big.Int).Set(a)
}

// sqrtRatioM1 is SQRT_RATIO_M1 of RFC 9496, section 4.2.
func sqrtRatioM1(u, v *big.Int) (bool, *big.Int) {
	v3 := fmul(fmul(v, v), v)
	v7 := fmul(fmul(v3, v3), v)
	r := fmul(fmul(u, v3), new(big.Int).Exp(fmul(u, v7), sqrtExp, P))
	check := fmul(v, fmul(r, r))
	correct := check.Cmp(fmod(new(big.Int).Set(u))) == 0
	flipped := check.Cmp(fneg(u)) == 0
	flippedI := check.Cmp(fmul(fneg(u), SqrtM1)) == 0
	if flipped || flippedI {
		r = fmul(SqrtM1, r)
	}
	return correct || flipped, fabs(r)
}

// LE converts little-endian bytes to an integer.
func LE(b []byte) *big.Int {
	t := make([]byte, len(b))
	for i := range b {
		t[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(t)
}

// ToLE converts x to 32 little-endian bytes.
func ToLE(x *big.Int) []byte {
	t := make([]byte, 32)
	x.FillBytes(t)
	for i := 0; i < 16; i++ {
		t[i], t[31-i] = t[31-i], t[i]
	}
	return t
}

// ---- integers modulo L ----

func SMod(x *big.Int) *big.Int    { return new(big.Int).Mod(x, L) }
func SAdd(a, b *big.Int) *big.Int { x := new(big.Int).Add(a, b); return x.Mod(x, L) }
func SSub(a, b *big.Int) *big.Int { x := new(big.Int).Sub(a, b); return x.Mod(x, L) }
func SMul(a, b *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Mod(x, L) }
func SNeg(a *big.Int) *big.Int    { x := new(big.Int).Neg(a); return x.Mod(x, L) }
func SInv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(SMod(a), L) }
func SInt(i int64) *big.Int       { return SMod(big.NewInt(i)) }

// SCanon decodes a canonical 32 byte scalar.
func SCanon(b []byte) (*big.Int, bool) {
	if len(b) != 32 {
		return nil, false
	}
	x := LE(b)
	return x, x.Cmp(L) < 0
}

// SHash is SHA-512 of the concatenation, reduced modulo L.
func SHash(parts ...[]byte) *big.Int {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return SMod(LE(h.Sum(nil)))
}

// Lagrange is the coefficient at x (usually 0) of id in the interpolation over ids.
func LagrangeAt(id int64, ids []int64, x *big.Int) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	for _, j := range ids {
		if j == id {
			continue
		}
		num = SMul(num, SSub(x, SInt(j)))
		den = SMul(den, SSub(SInt(id), SInt(j)))
	}
	return SMul(num, SInv(den))
}

func Lagrange(id int64, ids []int64) *big.Int { return LagrangeAt(id, ids, zero) }

// Interpolate gives f(x) for the polynomial of degree < len(ids) with f(ids[i]) = ys[i].
func Interpolate(ids []int64, ys []*big.Int, x *big.Int) *big.Int {
	s := new(big.Int)
	for i, id := range ids {
		s = SAdd(s, SMul(ys[i], LagrangeAt(id, ids, x)))
	}
	return s
}

// LeadCoeff is the coefficient of x^(len(ids)-1) of the interpolating polynomial
// (a divided difference).
func LeadCoeff(ids []int64, ys []*big.Int) *big.Int {
	s := new(big.Int)
	for i, id := range ids {
		den := big.NewInt(1)
		for _, j := range ids {
			if j != id {
				den = SMul(den, SSub(SInt(id), SInt(j)))
			}
		}
		s = SAdd(s, SMul(ys[i], SInv(den)))
	}
	return s
}

// Poly evaluates sum c[i] x^i.
func Poly(c []*big.Int, x *big.Int) *big.Int {
	s := new(big.Int)
	for i := len(c) - 1; i >= 0; i-- {
		s = SAdd(SMul(s, x), c[i])
	}
	return s
}

// ---- edwards25519, extended coordinates ----

type Point struct{ X, Y, Z, T *big.Int }

func Identity() *Point {
	return &Point{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
}

func affine(x, y *big.Int) *Point { return &Point{x, y, big.NewInt(1), fmul(x, y)} }

// Add is the complete addition law of -x^2+y^2 = 1+dx^2y^2.
func (p *Point) Add(q *Point) *Point {
	a := fmul(fsub(p.Y, p.X), fsub(q.Y, q.X))
	b := fmul(fadd(p.Y, p.X), fadd(q.Y, q.X))
	c := fmul(fmul(p.T, d2), q.T)
	d := fmul(fadd(p.Z, p.Z), q.Z)
	e, f, g, h := fsub(b, a), fsub(d, c), fadd(d, c), fadd(b, a)
	return &Point{fmul(e, f), fmul(g, h), fmul(f, g), fmul(e, h)}
}

func (p *Point) Neg() *Point {
	return &Point{fneg(p.X), new(big.Int).Set(p.Y), new(big.Int).Set(p.Z), fneg(p.T)}
}

func (p *Point) Sub(q *Point) *Point { return p.Add(q.Neg()) }

// Mul is k*p for any non-negative integer k (not reduced, so that it is right for
// points with a torsion component as well).
func (p *Point) Mul(k *big.Int) *Point {
	r := Identity()
	if k.Sign() == 0 {
		return r
	}
	var tab [16]*Point
	tab[0] = r
	for i := 1; i < 16; i++ {
		tab[i] = tab[i-1].Add(p)
	}
	n := (k.BitLen() + 3) / 4
	for i := n - 1; i >= 0; i-- {
		for j := 0; j < 4; j++ {
			r = r.Add(r)
		}
		w := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
		if w != 0 {
			r = r.Add(tab[w])
		}
	}
	return r
}

// MulBase is (k mod L)*Base.
func MulBase(k *big.Int) *Point {
	k = SMod(k)
	r := Identity()
	for i := 0; i < 64; i++ {
		w := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
		if w != 0 {
			r = r.Add(baseTable[i][w])
		}
	}
	return r
}

// EqualEd is equality on the curve.
func (p *Point) EqualEd(q *Point) bool {
	return fmul(p.X, q.Z).Cmp(fmul(q.X, p.Z)) == 0 && fmul(p.Y, q.Z).Cmp(fmul(q.Y, p.Z)) == 0
}

// Equal is equality in ristretto255.
func (p *Point) Equal(q *Point) bool {
	return fmul(p.X, q.Y).Cmp(fmul(p.Y, q.X)) == 0 || fmul(p.Y, q.Y).Cmp(fmul(p.X, q.X)) == 0
}

func (p *Point) IsIdentity() bool { return p.Equal(Identity()) }

// OnCurve checks the curve equation and the extended coordinate.
func (p *Point) OnCurve() bool {
	zi := finv(p.Z)
	if zi.Sign() == 0 {
		return false
	}
	x, y := fmul(p.X, zi), fmul(p.Y, zi)
	xx, yy := fmul(x, x), fmul(y, y)
	return fsub(yy, xx).Cmp(fadd(one, fmul(D, fmul(xx, yy)))) == 0 && fmul(p.T, zi).Cmp(fmul(x, y)) == 0
}

// EncodeEd is the RFC 8032 encoding.
func (p *Point) EncodeEd() []byte {
	zi := finv(p.Z)
	x, y := fmul(p.X, zi), fmul(p.Y, zi)
	b := ToLE(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

// DecodeEd decodes an Ed25519 point; canonical says whether it is the canonical encoding.
func DecodeEd(b []byte) (p *Point, canonical, ok bool) {
	if len(b) != 32 {
		return nil, false, false
	}
	t := append([]byte{}, b...)
	sign := t[31] >> 7
	t[31] &= 0x7f
	yr := LE(t)
	y := new(big.Int).Mod(yr, P)
	yy := fmul(y, y)
	wasSq, x := sqrtRatioM1(fsub(yy, one), fadd(fmul(D, yy), one))
	if !wasSq {
		return nil, false, false
	}
	canonical = yr.Cmp(P) < 0 && !(x.Sign() == 0 && sign == 1)
	if isNeg(x) != (sign == 1) {
		x = fneg(x)
	}
	return affine(x, y), canonical, true
}

// Encode is the ristretto255 encoding (RFC 9496, section 4.3.2).
func (p *Point) Encode() []byte {
	u1 := fmul(fadd(p.Z, p.Y), fsub(p.Z, p.Y))
	u2 := fmul(p.X, p.Y)
	_, inv := sqrtRatioM1(one, fmul(u1, fmul(u2, u2)))
	den1, den2 := fmul(inv, u1), fmul(inv, u2)
	zInv := fmul(fmul(den1, den2), p.T)
	x, y, denInv := p.X, p.Y, den2
	if isNeg(fmul(p.T, zInv)) {
		x, y = fmul(p.Y, SqrtM1), fmul(p.X, SqrtM1)
		denInv = fmul(den1, invSqrtAMinusD)
	}
	if isNeg(fmul(x, zInv)) {
		y = fneg(y)
	}
	return ToLE(fabs(fmul(denInv, fsub(p.Z, y))))
}

// Decode is the ristretto255 decoding (RFC 9496, section 4.3.1).
func Decode(b []byte) (*Point, bool) {
	if len(b) != 32 {
		return nil, false
	}
	s := LE(b)
	if s.Cmp(P) >= 0 || isNeg(s) {
		return nil, false
	}
	ss := fmul(s, s)
	u1, u2 := fsub(one, ss), fadd(one, ss)
	u2s := fmul(u2, u2)
	v := fsub(fneg(fmul(D, fmul(u1, u1))), u2s)
	wasSq, inv := sqrtRatioM1(one, fmul(v, u2s))
	denX := fmul(inv, u2)
	denY := fmul(fmul(inv, denX), v)
	x := fabs(fmul(fadd(s, s), denX))
	y := fmul(u1, denY)
	t := fmul(x, y)
	if !wasSq || isNeg(t) || y.Sign() == 0 {
		return nil, false
	}
	return &Point{x, y, big.NewInt(1), t}, true
}

func mapToPoint(t *big.Int) *Point {
	r := fmul(SqrtM1, fmul(t, t))
	u := fmul(fadd(r, one), oneMinusDSq)
	c := fneg(one)
	v := fmul(fsub(c, fmul(r, D)), fadd(r, D))
	wasSq, s := sqrtRatioM1(u, v)
	if !wasSq {
		s = fneg(fabs(fmul(s, t)))
		c = r
	}
	n := fsub(fmul(fmul(c, fsub(r, one)), dMinusOneSq), v)
	w0 := fmul(fadd(s, s), v)
	w1 := fmul(n, sqrtADMinusOne)
	ss := fmul(s, s)
	w2, w3 := fsub(one, ss), fadd(one, ss)
	return &Point{fmul(w0, w3), fmul(w2, w1), fmul(w1, w3), fmul(w0, w2)}
}

// FromUniform is the one-way map of RFC 9496, section 4.3.4.
func FromUniform(b []byte) *Point {
	m := func(h []byte) *Point {
		t := append([]byte{}, h...)
		t[31] &= 0x7f
		return mapToPoint(fmod(LE(t)))
	}
	return m(b[:32]).Add(m(b[32:]))
}

var eightInv = new(big.Int).ModInverse(big.NewInt(8), L)

// Prime is the unique representative of p's coset in the prime-order subgroup.
func (p *Point) Prime() *Point { return p.Mul(big.NewInt(8)).Mul(eightInv) }

// Torsion returns the eight points of small order.
func Torsion() []*Point {
	// a point of order 8: L times a random curve point
	for y := int64(2); ; y++ {
		q, _, ok := DecodeEd(ToLE(big.NewInt(y)))
		if !ok {
			continue
		}
		t := q.Mul(L)
		if t.Mul(big.NewInt(4)).EqualEd(Identity()) {
			continue
		}
		out := []*Point{Identity()}
		for i := 1; i < 8; i++ {
			out = append(out, out[i-1].Add(t))
		}
		return out
	}
}

// VerifyEd is cofactorless Ed25519 verification as in crypto/ed25519.
func VerifyEd(pub, msg, sig []byte) bool {
	if len(sig) != 64 || len(pub) != 32 {
		return false
	}
	a, _, ok := DecodeEd(pub)
	if !ok {
		return false
	}
	s, ok := SCanon(sig[32:])
	if !ok {
		return false
	}
	k := SHash(sig[:32], pub, msg)
	r := MulBase(s).Add(a.Neg().Mul(k))
	return string(r.EncodeEd()) == string(sig[:32])
}

func init() {
	y := fmul(big.NewInt(4), finv(big.NewInt(5)))
	b, _, ok := DecodeEd(ToLE(y))
	if !ok {
		panic("base point")
	}
	Base = b
	q := b
	for i := range baseTable {
		baseTable[i][0] = Identity()
		for j := 1; j < 16; j++ {
			baseTable[i][j] = baseTable[i][j-1].Add(q)
		}
		q = baseTable[i][15].Add(q)
	}
	if !MulBase(new(big.Int).Sub(L, one)).Add(b).EqualEd(Identity()) || !b.Mul(L).EqualEd(Identity()) {
		panic("ref: base point order")
	}
	_ = two
}
