package frost_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

type states = map[party.ID]*state.State

func wire(t *testing.T, m *messages.Message) *messages.Message {
	t.Helper()
	b, err := m.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	var out messages.Message
	if err = out.UnmarshalBinary(b); err != nil {
		t.Fatal(err)
	}
	return &out
}

// pump delivers all messages in order until nothing moves any more.
func pump(t *testing.T, ids party.IDSlice, st states) error {
	t.Helper()
	return pumpWith(t, ids, st, func(m *messages.Message) *messages.Message { return m })
}

func pumpWith(t *testing.T, ids party.IDSlice, st states, change func(*messages.Message) *messages.Message) error {
	t.Helper()
	for round := 0; round < 8; round++ {
		var msgs []*messages.Message
		for _, id := range ids {
			if s := st[id]; s != nil {
				msgs = append(msgs, s.ProcessAll()...)
			}
		}
		for _, m := range msgs {
			m = change(m)
			if m == nil {
				continue
			}
			for _, id := range ids {
				if s := st[id]; s != nil && !s.IsFinished() {
					if err := s.HandleMessage(wire(t, m)); err != nil {
						return err
					}
				}
			}
		}
	}
	for _, id := range ids {
		if s := st[id]; s != nil {
			if !s.IsFinished() {
				return fmt.Errorf("party %d is not finished", id)
			}
			if err := s.WaitForError(); err != nil {
				return err
			}
		}
	}
	return nil
}

func keygenStates(t *testing.T, ids party.IDSlice, th party.Size) (states, map[party.ID]*keygen.Output) {
	t.Helper()
	st, out := states{}, map[party.ID]*keygen.Output{}
	for _, id := range ids {
		s, o, err := frost.NewKeygenState(id, ids, th, 0)
		if err != nil {
			t.Fatal(err)
		}
		st[id], out[id] = s, o
	}
	return st, out
}

func signStates(t *testing.T, signers party.IDSlice, secrets map[party.ID]*eddsa.SecretShare, pub *eddsa.Public, msg []byte) (states, map[party.ID]*sign.Output) {
	t.Helper()
	st, out := states{}, map[party.ID]*sign.Output{}
	for _, id := range signers {
		s, o, err := frost.NewSignState(signers, secrets[id], pub, msg, 0)
		if err != nil {
			t.Fatal(err)
		}
		st[id], out[id] = s, o
	}
	return st, out
}

func dealer(ids party.IDSlice, th party.Size) (*ristretto.Scalar, map[party.ID]*eddsa.SecretShare, *eddsa.Public) {
	secret, shares := helpers.GenerateSecrets(ids, th)
	return secret, shares, helpers.GeneratePublic(th, shares)
}

func within(t *testing.T, d time.Duration, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal("timeout")
	}
}
