From 0086c8ea78365a3ffd745796198be80f8af85601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 01/23] fix: use the 64 byte digest as Schnorr challenge

h.Sum(buffer) appends the digest to the 64 zero bytes of buffer, so
SetUniformBytes was given 128 bytes, failed, and left the challenge at 0 for
every statement. Any proof with S=0 verified for any public key and party.
---
 pkg/internal/zk/schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..416bdd1 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -83,9 +83,8 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 	_, _ = h.Write(public.Bytes())
 	_, _ = h.Write(M.Bytes())
 
-	buffer := make([]byte, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
-	_, _ = S.SetUniformBytes(h.Sum(buffer))
+	_, _ = S.SetUniformBytes(h.Sum(nil))
 	return &S
 }
 
-- 
2.43.0


From 3c328b01ea533da7b8dff05b23947c938ffae1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 02/23] fix: report payload decoding errors in
 Message.UnmarshalBinary

The error of the payload decoder was dropped, so a message with a valid header
and a malformed payload decoded "successfully" to a message without payload,
which later made the rounds dereference a nil pointer.
---
 pkg/messages/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..3012b4c 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,7 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
 }
 
 func (m *Message) Equal(other interface{}) bool {
-- 
2.43.0


From 706853c893c24865a9cb8e1e0c30754d8321219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 03/23] fix: do not overflow the coefficient count of a decoded
 Exponent

A degree of 65535 wrapped around to 0 coefficients, and the resulting empty
polynomial made Constant() panic on the receiver of a KeyGen1 message.
---
 pkg/internal/polynomial/exponent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..3948640 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -187,14 +187,14 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	coefficientCount := degree + 1
+	coefficientCount := int(degree) + 1
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
 	if count%32 != 0 {
 		return errors.New("length of data is wrong")
 	}
-	if count != int(coefficientCount)*32 {
+	if count != coefficientCount*32 {
 		return errors.New("wrong number of coefficients embedded")
 	}
 
-- 
2.43.0


From 29fdff183d21af741f9b0a6aa2b0576bc40111c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 04/23] fix: reject KeyGen1 commitments of the wrong degree

The error of CommitmentsSum.Add was ignored, so commitments of another degree
were left out of the sum while the matching share was still added to the secret:
the key generation finished successfully with inconsistent keys.
---
 pkg/frost/keygen/round1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..df64788 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -12,6 +12,10 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 	ctx := make([]byte, 32)
 	from := msg.From
 
+	if msg.KeyGen1.Commitments.Degree() != round.Threshold {
+		return state.NewError(from, errors.New("commitments have the wrong degree"))
+	}
+
 	public := msg.KeyGen1.Commitments.Constant()
 	if !msg.KeyGen1.Proof.Verify(from, public, ctx) {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
-- 
2.43.0


From ee99f1e5ea1a582f7de2120b6431d6448e4f9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 05/23] fix: do not panic when a keygen is aborted before its
 first round

A timeout before the first ProcessAll made Reset dereference the polynomials
which are not created yet, and crashed the process.
---
 pkg/frost/keygen/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..7bc1ae8 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,13 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	// The polynomials are only set once the first messages have been generated
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From 653a994bd738b0efd71095ed71c3ed5e6ddf12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 06/23] fix: do not share commitments between keygen rounds and
 messages

The KeyGen1 message returned to the caller pointed to CommitmentsSum, which is
modified by the next rounds, so the message changed under the caller if it was
not marshalled immediately. Likewise, Reset cleared the commitments of messages
received from the caller.
---
 pkg/frost/keygen/round0.go | 3 ++-
 pkg/frost/keygen/round1.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..c22223b 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,8 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	// The message gets its own copy, since CommitmentsSum changes in the following rounds
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index df64788..6bcfa0f 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -21,7 +21,8 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
+	// Keep our own copy, since it is cleared at the end of the protocol
+	round.Commitments[from] = msg.KeyGen1.Commitments.Copy()
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
 	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
-- 
2.43.0


From 49398225dbb4da624df1c0c61c74ac7b9de1f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 07/23] fix: queue messages for later rounds regardless of the
 current round

A message for a later round was refused, and therefore lost, when the sender's
message for the current round was already there (the sender is one round ahead
because it has received a message that we are still waiting for), or when it
arrived before our first ProcessAll. The protocol then never finished.
On the other hand, duplicates in the queue were not detected.
---
 pkg/state/state.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..0990499 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -105,16 +105,15 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("sender is not a party"), senderID)
 	}
 
-	// Check if we have already received a message from this party.
-	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
-		return s.wrapError(errors.New("message from this party was already received"), senderID)
-	}
-
 	if !s.isAcceptedType(msg.Type) {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// Check if we have already received a message of this type from this party.
+	if s.alreadyReceived(senderID, msg.Type) {
+		return s.wrapError(errors.New("message from this party was already received"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
@@ -199,6 +198,21 @@ func (s *State) isAcceptedType(msgType messages.MessageType) bool {
 	return false
 }
 
+// alreadyReceived returns true if a message of the given type from the given sender is stored,
+// either for the current round, or in the queue for a later one.
+func (s *State) alreadyReceived(senderID party.ID, msgType messages.MessageType) bool {
+	if msgType == s.acceptedTypes[0] {
+		_, exists := s.receivedMessages[senderID]
+		return exists
+	}
+	for _, msg := range s.queue {
+		if msg.From == senderID && msg.Type == msgType {
+			return true
+		}
+	}
+	return false
+}
+
 //
 // Output
 //
-- 
2.43.0


From 3e7b3641e54645caa324bdc8511d9c475e7a8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 08/23] fix: process all rounds whose messages are already
 queued

When the last message of a round arrives after all the messages of the next
one, ProcessAll took the latter out of the queue but did not process them. As
no other message was to come, a caller which invokes ProcessAll after each
message, as documented, waited forever.
---
 pkg/state/state.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 0990499..1a365b6 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -131,19 +131,21 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 // These messages are returned to the caller and should be processed.
 // If all went correctly, we take the messages for the next round out of the queue,
 // and move on to the next round.
+// This is repeated if the queue already contained all messages for the next round.
 func (s *State) ProcessAll() []*messages.Message {
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if s.done {
-		return nil
-	}
-
+	var newMessages []*messages.Message
 	// Only continue if we received messages from all
-	if len(s.receivedMessages) != int(s.round.PartyIDs().N()-1) {
-		return nil
+	for !s.done && len(s.receivedMessages) == int(s.round.PartyIDs().N()-1) {
+		newMessages = append(newMessages, s.processRound()...)
 	}
+	return newMessages
+}
 
+// processRound executes the current round, for which all messages must have been received.
+func (s *State) processRound() []*messages.Message {
 	for _, msg := range s.receivedMessages {
 		if err := s.round.ProcessMessage(msg); err != nil {
 			s.reportError(err)
-- 
2.43.0


From a50376615a21fa3fbe00995c67cd117a4c1c6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 09/23] fix: data races when waiting for a State from another
 goroutine

Err, WaitForError and IsFinished read fields of State without its mutex, while
the goroutine handling messages, or the timer, writes them. The timer could
also fire before NewBaseState had stored it.
---
 pkg/state/state.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 1a365b6..265cbd3 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,6 +42,10 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
+	// The timer may fire before we return
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
 		s.reportError(NewError(0, errors.New("message timeout")))
@@ -253,6 +257,9 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	if s.err != nil {
 		return s.err
 	}
@@ -263,15 +270,18 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
-	return s.done
+	select {
+	case <-s.doneChan:
+		return true
+	default:
+		return false
+	}
 }
 
 //
-- 
2.43.0


From 250e173886ba134f54c5b21e0e91e293df7434a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 10/23] fix: swapped culprit and round number in errors of
 HandleMessage

---
 pkg/state/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 265cbd3..6462619 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -65,7 +65,7 @@ func (s *State) wrapError(err error, culprit party.ID) error {
 	if culprit == 0 {
 		return fmt.Errorf("party %d, round %d: %w", s.round.SelfID(), s.roundNumber, err)
 	}
-	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), culprit, s.roundNumber, err)
+	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), s.roundNumber, culprit, err)
 }
 
 // HandleMessage should be called on an unmarshalled messages.Message appropriate for the protocol execution.
-- 
2.43.0


From a032f4e32c1ee4120a104e7d55c65d5997e16458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 11/23] fix: refuse messages without content in HandleMessage

A message with a valid header but no content, as left behind by a failed
UnmarshalBinary, was stored and made ProcessAll dereference a nil pointer.
---
 pkg/messages/messages.go | 15 +++++++++++++++
 pkg/state/state.go       |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index 3012b4c..e0b0277 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -122,6 +122,21 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 	return err
 }
 
+// HasContent returns true if the message contains the data indicated by its type.
+func (m *Message) HasContent() bool {
+	switch m.Type {
+	case MessageTypeKeyGen1:
+		return m.KeyGen1 != nil
+	case MessageTypeKeyGen2:
+		return m.KeyGen2 != nil
+	case MessageTypeSign1:
+		return m.Sign1 != nil
+	case MessageTypeSign2:
+		return m.Sign2 != nil
+	}
+	return false
+}
+
 func (m *Message) Equal(other interface{}) bool {
 	otherMsg, ok := other.(*Message)
 	if !ok {
diff --git a/pkg/state/state.go b/pkg/state/state.go
index 6462619..0a31f13 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -113,6 +113,11 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// A message which failed to be unmarshalled may have no content
+	if !msg.HasContent() {
+		return s.wrapError(messages.ErrInvalidMessage, senderID)
+	}
+
 	// Check if we have already received a message of this type from this party.
 	if s.alreadyReceived(senderID, msg.Type) {
 		return s.wrapError(errors.New("message from this party was already received"), senderID)
-- 
2.43.0


From d116b6983d316c8d6070e197c7180ef96418d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 12/23] fix: refuse invalid sets of parties

The ID 0 made the key generation panic in a later round, and duplicate IDs made
both protocols wait forever for messages.
---
 pkg/state/base_round.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..56e9d7f 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -13,6 +13,14 @@ type BaseRound struct {
 }
 
 func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
+	for i, id := range partyIDs {
+		if id == 0 {
+			return nil, errors.New("PartyIDs should not contain 0")
+		}
+		if i > 0 && partyIDs[i-1] >= id {
+			return nil, errors.New("PartyIDs should be sorted and not contain duplicates")
+		}
+	}
 	if !partyIDs.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
-- 
2.43.0


From 5a2fb9736a1edff7f7e212b534a2f7da2df0d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 13/23] fix: infinite loop in NewPartySlice for the maximum
 size

The loop variable wrapped around to 0 for n = 65535.
---
 pkg/helpers/parties.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..c9e9e09 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -11,8 +11,8 @@ import (
 // NewPartySlice returns n party.ID s in the range [1, ..., n].
 func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
-	for i := party.ID(1); i <= n; i++ {
-		partyIDs = append(partyIDs, i)
+	for i := 1; i <= int(n); i++ {
+		partyIDs = append(partyIDs, party.ID(i))
 	}
 	return partyIDs
 }
-- 
2.43.0


From b369f9be7b2383cd65e4190807537772e6433fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 14/23] fix: handle short reads of the randomness source

rand.Reader.Read may legitimately return fewer bytes than requested without an
error, in which case the rest of the scalar's randomness was zero.
---
 pkg/internal/scalar/scalar.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/scalar/scalar.go b/pkg/internal/scalar/scalar.go
index 7cab383..1e48b02 100644
--- a/pkg/internal/scalar/scalar.go
+++ b/pkg/internal/scalar/scalar.go
@@ -3,6 +3,7 @@ package scalar
 import (
 	"crypto/rand"
 	"fmt"
+	"io"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -11,7 +12,8 @@ import (
 func SetScalarRandom(s *ristretto.Scalar) *ristretto.Scalar {
 	bytes := make([]byte, 64)
 
-	_, err := rand.Reader.Read(bytes)
+	// A single call to rand.Reader.Read may return less than 64 bytes
+	_, err := io.ReadFull(rand.Reader, bytes)
 	if err != nil {
 		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
 	}
-- 
2.43.0


From 02716a471af611fb6f047a2abccce16b8f0a965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 15/23] fix: wrong result of MultiScalarMult

edwards25519.Point.MultiScalarMult does not initialize its receiver, so the
result was wrong unless the receiver was the identity, and not even a valid
point when it was a zero value.
---
 pkg/ristretto/ristretto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ristretto/ristretto.go b/pkg/ristretto/ristretto.go
index b4c0aee..4d0eb12 100644
--- a/pkg/ristretto/ristretto.go
+++ b/pkg/ristretto/ristretto.go
@@ -373,7 +373,9 @@ func (e *Element) MultiScalarMult(s []*Scalar, p []*Element) *Element {
 	for i := range s {
 		points[i] = &p[i].r
 	}
-	e.r.MultiScalarMult(s, points)
+	// edwards25519 adds to the receiver in this version, so it has to be the identity.
+	r := edwards25519.NewIdentityPoint()
+	e.r.Set(r.MultiScalarMult(s, points))
 	return e
 }
 
-- 
2.43.0


From ee74cafca63ff069696e3f3b61e34a63c90131eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 16/23] fix: refuse invalid public shares instead of crashing
 or truncating

A share with ID 0, a null share or a missing group key in the JSON encoding
made UnmarshalJSON panic, and a threshold which does not fit in 16 bits was
silently reduced to another one. NewPublic also accepted a threshold of 65535
because of an overflow.
---
 pkg/eddsa/public.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..f9606b4 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -28,25 +29,26 @@ type Public struct {
 // NewPublic creates a Public structure given a map of public key shares as ristretto.Element, the threshold used.
 func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*Public, error) {
 	n := len(shares)
+	if int(threshold)+1 > n {
+		return nil, errors.New("PublicShares: Threshold should be < N - 1")
+	}
+
 	IDs := make([]party.ID, 0, n)
-	for id := range shares {
+	for id, share := range shares {
+		if id == 0 || share == nil {
+			return nil, errors.New("PublicShares: invalid share")
+		}
 		IDs = append(IDs, id)
 	}
 
 	set := party.NewIDSlice(IDs)
 
-	s := &Public{
+	return &Public{
 		PartyIDs:  set,
 		Threshold: threshold,
 		Shares:    shares,
 		GroupKey:  computeGroupKey(set, shares),
-	}
-
-	if s.Threshold+1 > s.PartyIDs.N() {
-		return nil, errors.New("PublicShares: Threshold should be < N - 1")
-	}
-
-	return s, nil
+	}, nil
 }
 
 // computeGroupKey computes the interpolation of the shares with regards to the partyIDs
@@ -85,6 +87,13 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if out.Threshold < 0 || out.Threshold > math.MaxUint16 {
+		return errors.New("PublicShares: Threshold is out of range")
+	}
+	if out.GroupKey == nil {
+		return errors.New("PublicShares: missing group key")
+	}
+
 	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
 	if err != nil {
 		return err
-- 
2.43.0


From 56bd27322527460bdca8986fbe1de79d8caacd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 17/23] fix: refuse secret shares with an out of range ID

UnmarshalJSON silently reduced the ID to 16 bits, so the share was attributed
to another party.
---
 pkg/eddsa/secret_share.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..7b67979 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -75,10 +76,13 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
-	sk.ID = party.ID(out.ID)
+	if out.ID < 0 || out.ID > math.MaxUint16 {
+		return errors.New("SecretShare: ID is out of range")
+	}
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
 		return err
 	}
+	sk.ID = party.ID(out.ID)
 	sk.Public.ScalarBaseMult(&sk.Secret)
 	return nil
 }
-- 
2.43.0


From cba6c47bd44a009c7ef58b53820e7960c0153bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 18/23] fix: check the lower bound of t in cmd/keygen

Negative values were reduced to 16 bits: depending on the value, the key
generation ran with another threshold, or practically never ended.
---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 0ab011e..10f95c0 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -45,7 +45,7 @@ func main() {
 		usage()
 		return
 	}
-	if (n > maxN) || (t >= n) {
+	if (t < 1) || (n > maxN) || (t >= n) {
 		usage()
 		return
 	}
-- 
2.43.0


From 229ce6f8bc87717e83c1c81634c3d75c25f85612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 19/23] fix: report incomplete key files in cmd/signer

A file without shares, or without the secret of a party, crashed the signer, as
did any error of NewSignState, which was not reported.
---
 cmd/signer/signer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index 2bf688c..7927d76 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -53,6 +53,11 @@ func main() {
 		return
 	}
 
+	if kgOutput.Shares == nil {
+		fmt.Println("no shares found in", filename)
+		return
+	}
+
 	// get n and t from the keygen output
 	var n party.Size
 	var t party.Size
@@ -74,9 +79,14 @@ func main() {
 	msgsOut2 := make([][]byte, 0, n)
 
 	for _, id := range partyIDs {
+		if secretShares[id] == nil {
+			fmt.Printf("no secret found for party %d\n", id)
+			return
+		}
 		states[id], outputs[id], err = frost.NewSignState(partyIDs, secretShares[id], publicShares, message, 0)
 		if err != nil {
-			fmt.Println()
+			fmt.Println(err)
+			return
 		}
 	}
 
-- 
2.43.0


From c1854a101092fbd7d9e8365a9616c964d1a07ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 20/23] fix: refuse secret shares without a valid ID

---
 pkg/eddsa/secret_share.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 7b67979..a1d636c 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -48,6 +48,9 @@ func (sk *SecretShare) UnmarshalBinary(data []byte) error {
 	if sk.ID, err = party.FromBytes(data); err != nil {
 		return err
 	}
+	if sk.ID == 0 {
+		return errors.New("SecretShare: ID is out of range")
+	}
 	data = data[party.IDByteSize:]
 
 	if _, err = sk.Secret.SetCanonicalBytes(data); err != nil {
@@ -76,7 +79,7 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
-	if out.ID < 0 || out.ID > math.MaxUint16 {
+	if out.ID < 1 || out.ID > math.MaxUint16 {
 		return errors.New("SecretShare: ID is out of range")
 	}
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
-- 
2.43.0


From 4a6c36353a5ff351e017b4c94fe9cce5a51172db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 21/23] fix: refuse public shares without a threshold

---
 pkg/eddsa/public.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index f9606b4..e287a18 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -65,15 +65,16 @@ func computeGroupKey(partyIDs party.IDSlice, shares map[party.ID]*ristretto.Elem
 }
 
 type sharesJSON struct {
-	Threshold int                             `json:"t"`
+	Threshold *int                            `json:"t"`
 	GroupKey  *PublicKey                      `json:"groupkey"`
 	Shares    map[party.ID]*ristretto.Element `json:"shares"`
 }
 
 // MarshalJSON implements the json.Marshaler interface.
 func (s *Public) MarshalJSON() ([]byte, error) {
+	threshold := int(s.Threshold)
 	return json.Marshal(sharesJSON{
-		Threshold: int(s.Threshold),
+		Threshold: &threshold,
 		Shares:    s.Shares,
 		GroupKey:  s.GroupKey,
 	})
@@ -87,14 +88,17 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	if out.Threshold < 0 || out.Threshold > math.MaxUint16 {
+	if out.Threshold == nil {
+		return errors.New("PublicShares: missing threshold")
+	}
+	if *out.Threshold < 0 || *out.Threshold > math.MaxUint16 {
 		return errors.New("PublicShares: Threshold is out of range")
 	}
 	if out.GroupKey == nil {
 		return errors.New("PublicShares: missing group key")
 	}
 
-	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
+	newS, err := NewPublic(out.Shares, party.Size(*out.Threshold))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7f481093c749d3fffd0929859cff30762f93143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 22/23] fix: report a failure to write the key file in
 cmd/keygen

---
 cmd/keygen/keygen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 10f95c0..d881a86 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,10 @@ func main() {
 
 	filename := "keygenout.json"
 
-	_ = ioutil.WriteFile(filename, jsonData, 0644)
+	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
+		fmt.Println(err)
+		return
+	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
 }
-- 
2.43.0


From 38245892f7853bd9a52969c740e0c6f10eea06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:42 +0000
Subject: [PATCH 23/23] fix: do not time out right after accepting a message

The timer can fire while HandleMessage accepts a message. The function of the
timer then ran although the timer had just been restarted.
---
 pkg/state/state.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 0a31f13..b931926 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -48,8 +48,12 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
+		defer s.mtx.Unlock()
+		// A message may have been accepted after the timer fired
+		if s.timer.restarted() {
+			return
+		}
 		s.reportError(NewError(0, errors.New("message timeout")))
-		s.mtx.Unlock()
 	})
 
 	for _, id := range round.PartyIDs() {
@@ -296,6 +300,10 @@ func (s *State) IsFinished() bool {
 type timer struct {
 	t *time.Timer
 	d time.Duration
+
+	// superseded is the number of times the timer was restarted after it had fired,
+	// but before its function could run.
+	superseded int
 }
 
 func newTimer(d time.Duration, f func()) timer {
@@ -311,11 +319,23 @@ func newTimer(d time.Duration, f func()) timer {
 
 func (t *timer) ackMessage() {
 	if t.t != nil {
-		t.t.Stop()
+		if !t.t.Stop() {
+			t.superseded++
+		}
 		t.t.Reset(t.d)
 	}
 }
 
+// restarted must be called once by the timer's function.
+// It returns true if the timer was restarted after it fired, in which case it will fire again.
+func (t *timer) restarted() bool {
+	if t.superseded > 0 {
+		t.superseded--
+		return true
+	}
+	return false
+}
+
 func (t *timer) stopTimer() {
 	if t.t != nil {
 		t.t.Stop()
-- 
2.43.0

