package main

import (
	"crypto/sha512"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// RefKG is a key-generation participant written from the documentation, working on wires.
type RefKG struct {
	c       *Case
	ID      party.ID
	IDs     party.IDSlice
	T       int
	Coef    []*big.Int
	Commits []*ref.Point
	In1     map[party.ID]kg1
	In2     map[party.ID]*big.Int
}

func (c *Case) refKG(id party.ID, ids party.IDSlice, t int) *RefKG {
	r := &RefKG{c: c, ID: id, IDs: ids, T: t, In1: map[party.ID]kg1{}, In2: map[party.ID]*big.Int{}}
	for i := 0; i <= t; i++ {
		r.Coef = append(r.Coef, c.scalar())
	}
	r.commit()
	return r
}

func (r *RefKG) commit() {
	r.Commits = nil
	for _, a := range r.Coef {
		r.Commits = append(r.Commits, ref.MulBase(a))
	}
}

// prove makes a proof of knowledge of x = log(pub) for the given statement.
func (c *Case) prove(id party.ID, ctx []byte, pub *ref.Point, x *big.Int) (s, rr *big.Int) {
	k := c.scalar()
	s = proofChallenge(id, ctx, pub, ref.MulBase(k))
	return s, ref.SAdd(k, ref.SMul(x, s))
}

func kg1Wire(id party.ID, s, r *big.Int, commits []*ref.Point) []byte {
	p := append(ref.ToLE(s), ref.ToLE(r)...)
	d := len(commits) - 1
	p = append(p, byte(d>>8), byte(d))
	for _, q := range commits {
		p = append(p, q.Encode()...)
	}
	return wire(tKG1, id, 0, p)
}

func (r *RefKG) msg1() []byte {
	s, rr := r.c.prove(r.ID, zeroCtx, r.Commits[0], r.Coef[0])
	return kg1Wire(r.ID, s, rr, r.Commits)
}

func (r *RefKG) share(to party.ID) *big.Int { return ref.Poly(r.Coef, big.NewInt(int64(to))) }

func (r *RefKG) msg2(to party.ID) []byte {
	return wire(tKG2, r.ID, to, ref.ToLE(r.share(to)))
}

// recv takes a wire of another party; it returns a complaint about it, or "".
func (r *RefKG) recv(w []byte) string {
	from := wFrom(w)
	switch wType(w) {
	case tKG1:
		k := r.c.parseKG1(w)
		if !proofValid(from, k) {
			return fmt.Sprintf("the proof of knowledge of party %d does not satisfy the documented equation", from)
		}
		if len(k.Commits) != r.T+1 {
			return fmt.Sprintf("party %d commits to degree %d instead of %d", from, len(k.Commits)-1, r.T)
		}
		r.In1[from] = k
	case tKG2:
		x, ok := ref.SCanon(w[5:])
		if !ok || wTo(w) != r.ID {
			return fmt.Sprintf("malformed share from party %d", from)
		}
		r.In2[from] = x
	}
	return ""
}

// finish verifies the shares and returns (secret, group key, public shares).
func (r *RefKG) finish() (string, *big.Int, *ref.Point, map[party.ID]*ref.Point) {
	sum := append([]*ref.Point{}, r.Commits...)
	sec := r.share(r.ID)
	for _, id := range r.IDs {
		if id == r.ID {
			continue
		}
		k, ok1 := r.In1[id]
		x, ok2 := r.In2[id]
		if !ok1 || !ok2 {
			return fmt.Sprintf("party %d did not send everything", id), nil, nil, nil
		}
		if !ref.MulBase(x).Equal(evalCommits(k.Commits, int64(r.ID))) {
			return fmt.Sprintf("the share of party %d does not match its commitments", id), nil, nil, nil
		}
		sec = ref.SAdd(sec, x)
		for i := range sum {
			sum[i] = sum[i].Add(k.Commits[i])
		}
	}
	pub := map[party.ID]*ref.Point{}
	for _, id := range r.IDs {
		pub[id] = evalCommits(sum, int64(id))
	}
	return "", sec, sum[0], pub
}

// RefSign is a signing participant written from the documentation.
type RefSign struct {
	c       *Case
	ID      party.ID
	IDs     party.IDSlice
	Share   *big.Int
	Group   *ref.Point // torsion-free
	Msg     []byte
	D, E    *big.Int
	In1     map[party.ID][2]*ref.Point
	In1Raw  map[party.ID][]byte
	Z       map[party.ID]*big.Int
	rho     map[party.ID]*big.Int
	R       *ref.Point
	C       *big.Int
	publics map[party.ID]*ref.Point
}

func (c *Case) refSign(k *Key, ids party.IDSlice, id party.ID, msg []byte) *RefSign {
	r := &RefSign{c: c, ID: id, IDs: ids, Msg: msg, D: c.scalar(), E: c.scalar(),
		In1: map[party.ID][2]*ref.Point{}, In1Raw: map[party.ID][]byte{}, Z: map[party.ID]*big.Int{}, publics: map[party.ID]*ref.Point{}}
	if s := k.Secrets[id]; s != nil {
		r.Share = scBig(&s.Secret)
	}
	g, _, ok := ref.DecodeEd(k.Public.GroupKey.ToEd25519())
	c.Check(ok, "the group key is not an Ed25519 point")
	r.Group = g
	for _, j := range ids {
		r.publics[j] = elPt(c, k.Public.Shares[j])
	}
	return r
}

func (r *RefSign) msg1() []byte {
	w := wire(tSG1, r.ID, 0, ref.MulBase(r.D).Encode(), ref.MulBase(r.E).Encode())
	r.recv1(w)
	return w
}

func (r *RefSign) recv1(w []byte) string {
	d, ok1 := ref.Decode(w[5:37])
	e, ok2 := ref.Decode(w[37:69])
	if !ok1 || !ok2 || len(w) != 69 {
		return fmt.Sprintf("malformed Sign1 from party %d", wFrom(w))
	}
	r.In1[wFrom(w)] = [2]*ref.Point{d, e}
	r.In1Raw[wFrom(w)] = w[5:]
	return ""
}

// bind computes binding factors, R and the challenge from all commitments.
func (r *RefSign) bind() {
	mh := sha512.Sum512(r.Msg)
	var b []byte
	for _, id := range r.IDs {
		b = append(b, be16(id)...)
		b = append(b, r.In1Raw[id]...)
	}
	r.rho = map[party.ID]*big.Int{}
	r.R = ref.Identity()
	for _, id := range r.IDs {
		r.rho[id] = ref.SHash([]byte("FROST-SHA512"), be16(id), mh[:], b)
		r.R = r.R.Add(r.In1[id][0]).Add(r.In1[id][1].Mul(r.rho[id]))
	}
	r.R = r.R.Prime()
	r.C = ref.SHash(r.R.EncodeEd(), r.Group.EncodeEd(), r.Msg)
}

func (r *RefSign) z() *big.Int {
	z := ref.SAdd(r.D, ref.SMul(r.E, r.rho[r.ID]))
	return ref.SAdd(z, ref.SMul(ref.SMul(ref.Lagrange(int64(r.ID), id64(r.IDs)), r.Share), r.C))
}

func (r *RefSign) msg2() []byte {
	z := r.z()
	r.Z[r.ID] = z
	return wire(tSG2, r.ID, 0, ref.ToLE(z))
}

// zValid checks party id's share of the signature.
func (r *RefSign) zValid(id party.ID, z *big.Int) bool {
	lhs := ref.MulBase(z)
	rhs := r.In1[id][0].Add(r.In1[id][1].Mul(r.rho[id])).Add(r.publics[id].Mul(ref.SMul(r.C, ref.Lagrange(int64(id), id64(r.IDs)))))
	return lhs.Equal(rhs)
}

func (r *RefSign) recv2(w []byte) string {
	z, ok := ref.SCanon(w[5:])
	if !ok {
		return fmt.Sprintf("malformed Sign2 from party %d", wFrom(w))
	}
	if !r.zValid(wFrom(w), z) {
		return fmt.Sprintf("the signature share of party %d does not satisfy z = d + e*rho + lambda*s*c", wFrom(w))
	}
	r.Z[wFrom(w)] = z
	return ""
}

// sig is the aggregated signature in Ed25519 form.
func (r *RefSign) sig() []byte {
	s := new(big.Int)
	for _, id := range r.IDs {
		s = ref.SAdd(s, r.Z[id])
	}
	return append(r.R.EncodeEd(), ref.ToLE(s)...)
}
