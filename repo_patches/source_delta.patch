From c249b41c35ec91188ef6677ebe2eaf08a7c801f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 01/12] fix: report decryption failures of Signal messages

decryptSignal overwrote the error from decryptMessage, so an unauthentic or
duplicate message was reported as a successfully decrypted nil plaintext.
---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..8e84633 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From 4b2eda804d2e1ffe8981ec1683d687a749729b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 02/12] fix: advance the receiver chain past the decrypted
 message

The chain was left at the key of the message just decrypted, so the latest
message of a chain could be replayed.
---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 8e84633..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -416,7 +416,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From ec97c6b8c626cfd3983a090d01c3c04c62969f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 03/12] fix: stop at the first previous state which decrypts
 the message

The break only left the switch, so a later archived state could turn a
successful decryption into a duplicate message error or override it.
---
 protocol/session/cipher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..d1b7ec9 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -242,6 +242,7 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 
 	var state *updatedState
 
+search:
 	for i, previous := range previousStates {
 		plaintext, err := s.decryptMessageSession(random, previous, ciphertext)
 		switch {
@@ -252,7 +253,7 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 				state:     previous,
 				plaintext: plaintext,
 			}
-			break
+			break search
 		case errors.Is(err, perrors.ErrDuplicateMessage):
 			return nil, err
 		default:
-- 
2.43.0


From 3342950cc340e824374b12fd7488d44a16e3ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 04/12] fix: fail instead of crashing on unusable pre-key
 messages

A pre-key message naming an unknown signed pre-key, or carrying a base key for
which the key agreement fails, dereferenced nil.
---
 protocol/session/session.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..a8fc191 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/golang/glog"
@@ -69,16 +70,16 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		return nil, nil
 	}
 
-	var ourSignedPreKeyPair *curve.KeyPair
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, fmt.Errorf("signed pre-key %s not found", message.SignedPreKeyID())
+	}
+	ourSignedPreKeyPair, err := ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
@@ -107,6 +108,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
@@ -307,6 +311,9 @@ func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
 	}
 
 	rootKey, chainKey, err := ratchet.DeriveKeys(secrets.Bytes())
+	if err != nil {
+		return nil, err
+	}
 
 	session := NewState(&v1.SessionStructure{
 		SessionVersion:       message.CiphertextVersion,
-- 
2.43.0


From 64ef8ff74eaaddb33c7fc814e6ba98d4e4e5b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 05/12] fix: reject pre-key messages naming a missing one-time
 pre-key

The handshake silently went on without the one-time pre-key.
---
 protocol/session/session.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index a8fc191..b2dba62 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -92,11 +92,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		if err != nil {
 			return nil, err
 		}
-		if exists {
-			ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
-			if err != nil {
-				return nil, err
-			}
+		if !exists {
+			return nil, fmt.Errorf("one-time pre-key %s not found", *message.PreKeyID())
+		}
+		ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 91660901517f60ba9bcccc57430d072e76743efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 06/12] fix: reject Signal messages too short to hold a MAC

NewSignalFromBytes sliced out of range for inputs of 1 to 8 bytes.
---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From 75fdd01656bdb8c14ddd1be01d6bbce9c6c86c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 07/12] fix: do not write padding into the caller's plaintext
 buffer

---
 protocol/crypto/aes/aes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..c305196 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,8 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	// Limit the capacity, so the caller's memory beyond the plaintext is left alone.
+	return append(plaintext[:len(plaintext):len(plaintext)], bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From e329dffbcdc7e0309a04a14cb6e77ca5ca4f5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 08/12] fix: compare identity keys by value when reporting a
 replaced key

The comparison was between pointers, so storing an equal key was reported as a change.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From 9eb774844e4c56f6dc737e44a1c369175a344051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 09/12] fix: load copies of records from the in-memory session
 stores

The stores handed out their own records, so a failed decryption (for example
of a forged pre-key message) altered the stored session.
---
 protocol/session/group_record.go | 10 ++++++++++
 protocol/session/group_state.go  |  9 +++++++++
 protocol/session/record.go       | 12 ++++++++++++
 protocol/session/store_inmem.go  | 10 ++++++++--
 4 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..5df7412 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -21,6 +21,16 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (g *GroupRecord) clone() *GroupRecord {
+	record := NewGroupRecord()
+	for _, state := range g.states {
+		record.states = append(record.states, state.clone())
+	}
+
+	return record
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/group_state.go b/protocol/session/group_state.go
index c7dcf2b..fa3380e 100644
--- a/protocol/session/group_state.go
+++ b/protocol/session/group_state.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"google.golang.org/protobuf/proto"
+
 	"github.com/RTann/libsignal-go/protocol/curve"
 	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 	"github.com/RTann/libsignal-go/protocol/senderkey"
@@ -45,6 +47,13 @@ func NewGroupState(cfg GroupStateConfig) *GroupState {
 	}
 }
 
+// clone returns a deep copy of the state.
+func (s *GroupState) clone() *GroupState {
+	return &GroupState{
+		state: proto.Clone(s.state).(*v1.SenderKeyStateStructure),
+	}
+}
+
 func (s *GroupState) Version() uint32 {
 	switch v := s.state.GetMessageVersion(); v {
 	case 0:
diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..391f38d 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,18 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (r *Record) clone() *Record {
+	record := &Record{
+		previousSessions: append([][]byte(nil), r.previousSessions...),
+	}
+	if r.currentSession != nil {
+		record.currentSession = r.currentSession.Clone()
+	}
+
+	return record
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..980e2d1 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,7 +23,10 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	return record.clone(), true, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
@@ -51,7 +54,10 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	return record.clone(), true, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
-- 
2.43.0


From 7a31eb2b33f3ffbeed85b98423f3a3adfa9d812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 10/12] fix: store a sender's identity key only after its
 message is authenticated

A pre-key message which failed to decrypt still pinned the identity key it carried.
---
 protocol/session/cipher.go  | 5 +++++
 protocol/session/session.go | 5 -----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index d1b7ec9..bc04c12 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,11 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
+	if err != nil {
+		return nil, err
+	}
+
 	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
 	if err != nil {
 		return nil, err
diff --git a/protocol/session/session.go b/protocol/session/session.go
index b2dba62..7f7afc5 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -52,11 +52,6 @@ func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *me
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
-	if err != nil {
-		return nil, err
-	}
-
 	return unsignedPreKeyID, nil
 }
 
-- 
2.43.0


From 03ea13340fa7d39476bee051acc58f88f6015555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:06 +0000
Subject: [PATCH 11/12] fix: treat a signature of the wrong length as invalid

VerifySignature indexed out of range for signatures shorter than 64 bytes.
---
 protocol/curve/curve25519/curve25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..41106f9 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -188,6 +188,10 @@ func (p *PrivateKey) Sign(random io.Reader, messages ...[]byte) ([]byte, error)
 //
 // It is expected the given public key is Montgomery u-point.
 func VerifySignature(publicKey []byte, signature []byte, messages ...[]byte) (bool, error) {
+	if len(signature) != SignatureSize {
+		return false, nil
+	}
+
 	y, err := utoy(publicKey, (signature[63]&0b1000_0000) == 0)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 9863eee43980bc0c5bec64f7fcccbc365be0a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:43 +0000
Subject: [PATCH 12/12] fix: refuse pre-key messages whose identity key is not
 their session's

---
 protocol/session/cipher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index bc04c12..04e0de4 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -155,6 +155,15 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	// The identity key which was checked must be the one the message was authenticated with.
+	theirIdentityKey, exists, err := record.State().RemoteIdentityKey()
+	if err != nil {
+		return nil, err
+	}
+	if !exists || !theirIdentityKey.Equal(ciphertext.IdentityKey()) {
+		return nil, errors.New("identity key of pre-key message does not match its session")
+	}
+
 	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, ciphertext.IdentityKey())
 	if err != nil {
 		return nil, err
-- 
2.43.0

