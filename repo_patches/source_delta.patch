From 4c0bcd9f3efe46026d9be1100720e7e2b7acb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 01/49] fix: refuse rawsocket handshakes with a zero or
 negative maximum size instead of panicking

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..0206059 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -48,6 +48,10 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must not be more than 16 megabytes")
 	}
 
+	if hs.MaxMessageSize() < 1<<9 {
+		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
-- 
2.43.0


From d70039d08eac54909f95441d8ffdb176ea05e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 02/49] fix: refuse rawsocket message headers that are not four
 bytes long

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 0206059..a4f1438 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -110,6 +110,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From 3e38fc6b2aa8708783ff34f6ecd9de4c05346739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 03/49] fix: never generate 0 as a random ID

---
 idgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..3ff7a28 100644
--- a/idgen.go
+++ b/idgen.go
@@ -18,8 +18,8 @@ func init() {
 
 // GenerateID generates a random WAMP ID.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
-	return id
+	id, _ := util.AsUInt64(rand.Int63n(int64(maxID) - 1))
+	return id + 1
 }
 
 type SessionScopeIDGenerator struct {
-- 
2.43.0


From 6e85a9209476b075a849e7d771187d36051d954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 04/49] fix: convert int16 values to uint64 and float64

---
 util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/util.go b/util/util.go
index f09eba5..2d0d54b 100644
--- a/util/util.go
+++ b/util/util.go
@@ -59,6 +59,8 @@ func AsUInt64(i any) (uint64, bool) {
 		return uint64(v), true // #nosec
 	case int8:
 		return uint64(v), true // #nosec
+	case int16:
+		return uint64(v), true // #nosec
 	case int32:
 		return uint64(v), true // #nosec
 	case uint:
@@ -90,6 +92,8 @@ func AsFloat64(v interface{}) (float64, bool) {
 		return float64(v), true
 	case int8:
 		return float64(v), true
+	case int16:
+		return float64(v), true
 	case int32:
 		return float64(v), true
 	case uint:
-- 
2.43.0


From 8b60b8725a0255a2c9ecf3a43fa00e543ede99b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 05/49] fix: report floats of 2^63 as out of range when
 converting to int

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2d0d54b..79b4f6a 100644
--- a/util/util.go
+++ b/util/util.go
@@ -36,11 +36,11 @@ func AsInt(i any) (int, bool) {
 			return int(v), true
 		}
 	case float32:
-		if v >= float32(intMin) && v <= float32(intMax) {
+		if v >= float32(intMin) && v < -float32(intMin) {
 			return int(v), true
 		}
 	case float64:
-		if v >= float64(intMin) && v <= float64(intMax) {
+		if v >= float64(intMin) && v < -float64(intMin) {
 			return int(v), true
 		}
 	}
-- 
2.43.0


From 464e52382902b9c276783d816e71d77ccb42d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 06/49] fix: let the typed map hold nil interface values

---
 internal/map.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index cd494b4..454bed9 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -16,7 +16,8 @@ func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 		return value, ok
 	}
 
-	return v.(V), ok
+	value, _ = v.(V)
+	return value, ok
 }
 
 func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
@@ -25,17 +26,20 @@ func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 		return value, loaded
 	}
 
-	return v.(V), loaded
+	value, _ = v.(V)
+	return value, loaded
 }
 
 func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	a, loaded := m.m.LoadOrStore(key, value)
-	return a.(V), loaded
+	actual, _ = a.(V)
+	return actual, loaded
 }
 
 func (m *Map[K, V]) Range(f func(key K, value V) bool) {
 	m.m.Range(func(key, value any) bool {
-		return f(key.(K), value.(V))
+		v, _ := value.(V)
+		return f(key.(K), v)
 	})
 }
 
-- 
2.43.0


From 6094a58e04f0a7645a7128f42530588f2a5feed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 07/49] fix: forget prefix registrations nobody holds any more
 (dealer)

---
 dealer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2836a0d..d1adacb 100644
--- a/dealer.go
+++ b/dealer.go
@@ -120,7 +120,7 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			delete(d.registrationsByProcedure, registration.Procedure)
 		}
 		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
+			d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 		}
 
 		if registration.Match == MatchWildcard {
@@ -353,7 +353,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From 11d69e038be7e013416849c8c17843d847448e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 08/49] fix: keep pattern registrations while another session
 holds them (dealer)

---
 dealer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dealer.go b/dealer.go
index d1adacb..c5f8c0d 100644
--- a/dealer.go
+++ b/dealer.go
@@ -118,13 +118,13 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		delete(registration.Registrants, id)
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
-		}
-		if registration.Match == MatchPrefix {
-			d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-		}
+			if registration.Match == MatchPrefix {
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+			}
 
-		if registration.Match == MatchWildcard {
-			delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			if registration.Match == MatchWildcard {
+				delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			}
 		}
 
 		for i, callee := range registration.callees {
-- 
2.43.0


From 4f320219b6cc2c36d060f82311286a741c8a2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 09/49] fix: refuse UNREGISTER of an unknown registration
 instead of panicking

---
 dealer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index c5f8c0d..2bc9d7e 100644
--- a/dealer.go
+++ b/dealer.go
@@ -346,7 +346,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 
-		registration := registrations[unregister.RegistrationID()]
+		registration, exists := registrations[unregister.RegistrationID()]
+		if !exists {
+			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
+				unregister.RegistrationID())
+		}
 		delete(registration.Registrants, sessionID)
 
 		if len(registration.Registrants) == 0 {
-- 
2.43.0


From c535666aab21031fa0472d47a8e52bb4f1ae40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 10/49] fix: do not invoke a session that unregistered from a
 shared registration

---
 dealer.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2bc9d7e..65bd0f9 100644
--- a/dealer.go
+++ b/dealer.go
@@ -54,6 +54,17 @@ type Registration struct {
 	Match            string
 }
 
+// removeCallee makes sure the session is not invoked for this registration anymore.
+func (r *Registration) removeCallee(sessionID uint64) {
+	callees := make([]uint64, 0, len(r.callees))
+	for _, callee := range r.callees {
+		if callee != sessionID {
+			callees = append(callees, callee)
+		}
+	}
+	r.callees = callees
+}
+
 type CallMap struct {
 	CallerID uint64
 	CallID   uint64
@@ -127,15 +138,7 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			}
 		}
 
-		for i, callee := range registration.callees {
-			if callee == id {
-				if len(registration.callees) == 1 {
-					registration.callees = make([]uint64, 0)
-				} else {
-					registration.callees = append(registration.callees[:i], registration.callees[i+1:]...)
-				}
-			}
-		}
+		registration.removeCallee(id)
 	}
 
 	delete(d.registrationsBySession, id)
@@ -352,9 +355,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 		delete(registration.Registrants, sessionID)
+		delete(registrations, unregister.RegistrationID())
+		registration.removeCallee(sessionID)
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
 				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-- 
2.43.0


From 2ac606e92dd5abfd0346714fce5342f80c3936bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 11/49] fix: list a session once as callee however often it
 registers

---
 dealer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index 65bd0f9..04af036 100644
--- a/dealer.go
+++ b/dealer.go
@@ -311,9 +311,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
-			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
-
+			if _, registered := registration.Registrants[sessionID]; !registered {
+				registration.Registrants[sessionID] = sessionID
+				registration.callees = append(registration.callees, sessionID)
+			}
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From 71e0929af8c5aba38121d8534d0d993ef376f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 12/49] fix: keep a progressive call on one invocation and
 callee until it is answered

---
 dealer.go | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/dealer.go b/dealer.go
index 04af036..fd16688 100644
--- a/dealer.go
+++ b/dealer.go
@@ -38,6 +38,8 @@ const (
 
 type PendingInvocation struct {
 	RequestID       uint64
+	Procedure       string
+	RegistrationID  uint64
 	CallerID        uint64
 	CalleeID        uint64
 	Progress        bool
@@ -171,7 +173,12 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		var regs *Registration
 		var found bool
 
-		regs, found = d.registrationsByProcedure[call.Procedure()]
+		pending, inProgress := d.callInProgress(sessionID, call)
+		if inProgress {
+			regs, found = d.registrationsBySession[pending.CalleeID][pending.RegistrationID]
+		} else {
+			regs, found = d.registrationsByProcedure[call.Procedure()]
+		}
 		if !found || len(regs.Registrants) == 0 {
 			if d.prefixTree.Len() > 0 {
 				_, reg, ok := d.prefixTree.Root().LongestPrefix([]byte(call.Procedure()))
@@ -197,7 +204,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if inProgress {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -223,11 +232,13 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		invocationID := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
+		if !inProgress {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
+				Procedure:       call.Procedure(),
+				RegistrationID:  regs.ID,
 				CallerID:        sessionID,
 				CalleeID:        calleeID,
 				ReceiveProgress: receiveProgress,
@@ -279,7 +290,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if pending.ReceiveProgress && progress {
 			details = map[string]any{OptionProgress: progress}
 		} else {
-			delete(d.pendingCalls, yield.RequestID())
+			d.finishInvocation(yield.RequestID(), pending)
 		}
 
 		var result *messages.Result
@@ -382,7 +393,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-		delete(d.pendingCalls, wErr.RequestID())
+		d.finishInvocation(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
 			wErr.Args(), wErr.KwArgs())
@@ -392,6 +403,32 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	}
 }
 
+// callInProgress returns the invocation that further parts of a progressive call belong to.
+func (d *Dealer) callInProgress(sessionID uint64, call *messages.Call) (*PendingInvocation, bool) {
+	invocationID, exists := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
+	if !exists {
+		return nil, false
+	}
+
+	pending, exists := d.pendingCalls[invocationID]
+	if !exists || pending.Procedure != call.Procedure() {
+		return nil, false
+	}
+
+	_, exists = d.registrationsBySession[pending.CalleeID][pending.RegistrationID]
+	return pending, exists
+}
+
+// finishInvocation forgets an invocation, so that its call is not in progress anymore.
+func (d *Dealer) finishInvocation(invocationID uint64, pending *PendingInvocation) {
+	delete(d.pendingCalls, invocationID)
+
+	call := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}
+	if d.invocationIDbyCall[call] == invocationID {
+		delete(d.invocationIDbyCall, call)
+	}
+}
+
 func wildcardMatch(str, pattern string) bool {
 	matched, err := path.Match(pattern, str)
 	return err == nil && matched
-- 
2.43.0


From ed56e0b0fb846d7eafac47eefe69b7d702515603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 13/49] fix: drop the pending invocations of a session that
 left

---
 dealer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dealer.go b/dealer.go
index fd16688..f37a626 100644
--- a/dealer.go
+++ b/dealer.go
@@ -143,6 +143,12 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		registration.removeCallee(id)
 	}
 
+	for invocationID, pending := range d.pendingCalls {
+		if pending.CallerID == id || pending.CalleeID == id {
+			d.finishInvocation(invocationID, pending)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
-- 
2.43.0


From decfb858d8e2c3d4c5d3f046c9d5994a9ef97f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 14/49] fix: refuse CALL of a session that is not attached

---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index f37a626..67f7291 100644
--- a/dealer.go
+++ b/dealer.go
@@ -176,6 +176,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
+		if _, attached := d.sessions[sessionID]; !attached {
+			return nil, fmt.Errorf("call: session %d is not attached", sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
-- 
2.43.0


From 8ccd126bfc31d83cc8a047ea1effcccd81531ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 15/49] fix: refuse answers to an invocation from sessions it
 was not sent to

---
 dealer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dealer.go b/dealer.go
index 67f7291..ceec213 100644
--- a/dealer.go
+++ b/dealer.go
@@ -294,6 +294,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if !exists {
 			return nil, fmt.Errorf("yield: not pending calls for session %d", sessionID)
 		}
+		if sessionID != pending.CalleeID && sessionID != pending.CallerID {
+			return nil, fmt.Errorf("yield: session %d was not invoked for %d", sessionID, yield.RequestID())
+		}
 
 		progress, _ := yield.Options()[OptionProgress].(bool)
 		var details map[string]any
@@ -402,6 +405,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if !exists {
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
+		if sessionID != pending.CalleeID {
+			return nil, fmt.Errorf("dealer: session %d was not invoked for %d", sessionID, wErr.RequestID())
+		}
 
 		d.finishInvocation(wErr.RequestID(), pending)
 
-- 
2.43.0


From a5f22dd5bfb9c51bbbcb4389d0118ca121211ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 16/49] fix: do not share a procedure under an unknown
 invocation policy

---
 dealer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index ceec213..6cd09c1 100644
--- a/dealer.go
+++ b/dealer.go
@@ -329,8 +329,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		invokePolicy := util.ToString(register.Options()[OptionInvoke])
 		registration, exists := d.registrationsByProcedure[register.Procedure()]
 		if exists {
-			if registration.InvocationPolicy == "" || registration.InvocationPolicy == InvokeSingle ||
-				registration.InvocationPolicy != invokePolicy {
+			if !isSharedPolicy(registration.InvocationPolicy) || registration.InvocationPolicy != invokePolicy {
 				err := messages.NewError(messages.MessageTypeRegister, register.RequestID(), map[string]any{},
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
@@ -419,6 +418,16 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	}
 }
 
+// isSharedPolicy tells whether several sessions may hold a registration with the invocation policy.
+func isSharedPolicy(policy string) bool {
+	switch policy {
+	case InvokeFirst, InvokeLast, InvokeRoundRobin, InvokeRandom:
+		return true
+	default:
+		return false
+	}
+}
+
 // callInProgress returns the invocation that further parts of a progressive call belong to.
 func (d *Dealer) callInProgress(sessionID uint64, call *messages.Call) (*PendingInvocation, bool) {
 	invocationID, exists := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-- 
2.43.0


From eafc027bfb0fbf2abbaab7458ba18d7cb32e4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 17/49] fix: a binary RESULT is binary whatever its payload
 serializer

---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From 3517f104016ff0f32e5ee973a72af0ec3c41f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 18/49] fix: do not treat a pattern registration as exact when
 its text is called

---
 dealer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dealer.go b/dealer.go
index 6cd09c1..601e835 100644
--- a/dealer.go
+++ b/dealer.go
@@ -188,6 +188,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			regs, found = d.registrationsBySession[pending.CalleeID][pending.RegistrationID]
 		} else {
 			regs, found = d.registrationsByProcedure[call.Procedure()]
+			found = found && regs.Match == MatchExact
 		}
 		if !found || len(regs.Registrants) == 0 {
 			if d.prefixTree.Len() > 0 {
-- 
2.43.0


From 806c0f7a7966485e3390b5d85326b42b382eec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 19/49] fix: keep pattern subscriptions while another session
 holds them

---
 broker.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/broker.go b/broker.go
index daf09e1..bbd7c8e 100644
--- a/broker.go
+++ b/broker.go
@@ -68,15 +68,7 @@ func (b *Broker) RemoveSession(id uint64) error {
 		}
 
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, v.Topic)
-		}
-
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, v.Topic)
+			b.forgetSubscription(subscription)
 		}
 	}
 
@@ -85,6 +77,19 @@ func (b *Broker) RemoveSession(id uint64) error {
 	return nil
 }
 
+// forgetSubscription removes a subscription that has no subscribers left.
+func (b *Broker) forgetSubscription(subscription *Subscription) {
+	delete(b.subscriptionsByTopic, subscription.Topic)
+
+	if subscription.Match == MatchPrefix {
+		b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+	}
+
+	if subscription.Match == MatchWildcard {
+		delete(b.wcSubscriptionsByTopic, subscription.Topic)
+	}
+}
+
 func (b *Broker) HasSubscription(topic string) bool {
 	b.Lock()
 	defer b.Unlock()
@@ -154,13 +159,7 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			b.forgetSubscription(subscription)
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From 3a3cd5f1eaaf7f7d243c43b4d3596a3830e2f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 20/49] fix: do not treat a pattern subscription as exact when
 its text is published to

---
 broker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index bbd7c8e..f6228bf 100644
--- a/broker.go
+++ b/broker.go
@@ -188,7 +188,8 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 
 	var subscription *Subscription
 	subscription, exists = b.subscriptionsByTopic[publish.Topic()]
-	if !exists || len(subscription.Subscribers) == 0 {
+	exists = exists && subscription.Match == MatchExact
+	if !exists {
 		if b.prefixTree.Len() > 0 {
 			_, sub, ok := b.prefixTree.Root().LongestPrefix([]byte(publish.Topic()))
 			if ok {
-- 
2.43.0


From 3d040f190c47aac0d52aaabd2f56dd37e1616d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 21/49] fix: do not send a publisher its own event unless it
 asked for it

---
 broker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broker.go b/broker.go
index f6228bf..5ad4384 100644
--- a/broker.go
+++ b/broker.go
@@ -12,6 +12,7 @@ import (
 
 const (
 	OptAcknowledge = "acknowledge"
+	OptExcludeMe   = "exclude_me"
 )
 
 type Broker struct {
@@ -218,7 +219,12 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 
 		event := messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())
 		result.Event = event
+		excludeMe, isBool := publish.Options()[OptExcludeMe].(bool)
 		for _, subscriber := range subscription.Subscribers {
+			// the publisher gets its own event only if it asked for it
+			if subscriber == sessionID && (excludeMe || !isBool) {
+				continue
+			}
 			result.Recipients = append(result.Recipients, subscriber)
 		}
 	}
-- 
2.43.0


From dce37204f848c409cb39a21a860b6d9bab86732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 22/49] fix: accept one SUBSCRIBED per SUBSCRIBE

---
 session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 35e63a3..c8b7060 100644
--- a/session.go
+++ b/session.go
@@ -181,7 +181,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From 9b27cdcf22f82ae75f3cb8fc9b9171bb66720eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 23/49] fix: close UNREGISTER and UNSUBSCRIBE requests when
 they are answered

---
 session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/session.go b/session.go
index c8b7060..f57ec55 100644
--- a/session.go
+++ b/session.go
@@ -150,7 +150,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -191,7 +191,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From 7c53b19822d06bb1b87a19732ea5eb55b092e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 24/49] fix: accept a cryptosign signature only for the
 challenge that was sent

---
 acceptor.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..83400cd 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -1,6 +1,8 @@
 package wampproto
 
 import (
+	"bytes"
+	"crypto/ed25519"
 	"encoding/hex"
 	"errors"
 	"fmt"
@@ -240,7 +242,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			if !verified || !a.signsChallenge(authenticate.Signature()) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
 				return abort, nil
 			}
@@ -254,6 +256,18 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 	}
 }
 
+// signsChallenge tells whether a cryptosign signature, which ends with the message
+// it signs, is for the challenge of this handshake.
+func (a *Acceptor) signsChallenge(signature string) bool {
+	signed, err := hex.DecodeString(signature)
+	if err != nil || len(signed) < ed25519.SignatureSize {
+		return false
+	}
+
+	challenge, err := hex.DecodeString(a.challenge)
+	return err == nil && bytes.Equal(signed[ed25519.SignatureSize:], challenge)
+}
+
 func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExtra map[string]any) *messages.Welcome {
 	welcome := messages.NewWelcome(sessionID, map[string]any{
 		"realm":      a.hello.Realm(),
-- 
2.43.0


From 2823746978ee582d39a776490e3d0479535e9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 25/49] fix: accept no more messages after the acceptor sent
 ABORT

---
 acceptor.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/acceptor.go b/acceptor.go
index 83400cd..b55e45e 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -18,6 +18,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAborted
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -102,6 +103,10 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
 
+	if a.state == AcceptorStateAborted {
+		return nil, errors.New("handshake was aborted, not expecting any new messages")
+	}
+
 	if msg.Type() == messages.MessageTypeHello {
 		if a.state != AcceptorStateNone {
 			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
@@ -110,8 +115,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		hello := msg.(*messages.Hello)
 		authMethod, err := auth.SelectAuthMethod(a.authenticator.Methods(), hello.AuthMethods())
 		if err != nil {
-			abort := messages.NewAbort(map[string]any{}, ErrAuthenticationFailed, []any{err.Error()}, nil)
-			return abort, nil
+			return a.sendAbort([]any{err.Error()}), nil
 		}
 
 		a.authMethod = authMethod
@@ -122,8 +126,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewRequest(hello, authMethod)
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			return a.sendWelcome(GenerateID(), response, nil), nil
@@ -134,8 +137,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewRequest(hello, authMethod)
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			craResponse, ok := response.(*auth.CRAResponse)
@@ -181,8 +183,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewCryptoSignRequest(hello, publicKey)
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			a.request = request
@@ -211,8 +212,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewTicketRequest(a.hello, authenticate.Signature())
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			return a.sendWelcome(GenerateID(), response, authenticate.Extra()), nil
@@ -228,8 +228,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			if !auth.VerifyWAMPCRASignature(authenticate.Signature(), a.challenge, secret) {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
-				return abort, nil
+				return a.sendAbort(nil), nil
 			}
 
 			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
@@ -243,8 +242,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
 			if !verified || !a.signsChallenge(authenticate.Signature()) {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
-				return abort, nil
+				return a.sendAbort(nil), nil
 			}
 
 			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
@@ -268,6 +266,12 @@ func (a *Acceptor) signsChallenge(signature string) bool {
 	return err == nil && bytes.Equal(signed[ed25519.SignatureSize:], challenge)
 }
 
+// sendAbort ends the handshake without a session.
+func (a *Acceptor) sendAbort(args []any) *messages.Abort {
+	a.state = AcceptorStateAborted
+	return messages.NewAbort(map[string]any{}, ErrAuthenticationFailed, args, nil)
+}
+
 func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExtra map[string]any) *messages.Welcome {
 	welcome := messages.NewWelcome(sessionID, map[string]any{
 		"realm":      a.hello.Realm(),
-- 
2.43.0


From be982f1567a4a29688c524fa6a263222a6a14932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 26/49] fix: name the authmethod in WELCOME by a plain string

---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index b55e45e..98c2195 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -278,7 +278,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From 95ddafa964534ff015365b7734f9462f51d00ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 27/49] fix: do not panic on a WELCOME without authid or
 authrole

---
 joiner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..06d6300 100644
--- a/joiner.go
+++ b/joiner.go
@@ -122,8 +122,10 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		authID, _ := welcome.Details()["authid"].(string)
+		authRole, _ := welcome.Details()["authrole"].(string)
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID, authRole, authMethod,
+			j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From 609e8f13dec79db64e5ebcda90bf5aadfadb87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 28/49] fix: accept no WELCOME after ABORT

---
 joiner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/joiner.go b/joiner.go
index 06d6300..ae861a2 100644
--- a/joiner.go
+++ b/joiner.go
@@ -40,6 +40,7 @@ const (
 	joinerStateHelloSent
 	joinerStateAuthenticateSent
 	joinerStateJoined
+	joinerStateAborted
 )
 
 type Joiner struct {
@@ -144,6 +145,7 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return authenticate, nil
 	} else if msg.Type() == messages.MessageTypeAbort {
 		abort := msg.(*messages.Abort)
+		j.state = joinerStateAborted
 
 		errStr := abort.Reason()
 		if len(abort.Args()) > 0 {
-- 
2.43.0


From e6a08ac536a5f6656ca60bdc40e6ce1d47749174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 29/49] fix: do not panic on negative or huge WAMP-CRA key
 lengths

---
 auth/wampcra.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..6bc2419 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,9 @@ import (
 
 const MethodCRA = "wampcra"
 
+// maxCRAKeyLength is the longest derived key a client is willing to compute.
+const maxCRAKeyLength = 4096
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -57,6 +60,9 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		// If salting info give, then compute a derived key using PBKDF2.
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
+		if keylen > maxCRAKeyLength {
+			return nil, fmt.Errorf("key length %d in challenge is too big", keylen)
+		}
 
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
@@ -88,7 +94,7 @@ func DeriveWAMPCRAKey(saltStr string, secret string, iterations int, keyLength i
 	if iterations == 0 {
 		iterations = 1000
 	}
-	if keyLength == 0 {
+	if keyLength <= 0 {
 		keyLength = 32
 	}
 
-- 
2.43.0


From 6a970dee7ad00050a59944ea88605a5f7f25d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 30/49] fix: refuse cryptosign private keys of the wrong length
 instead of panicking

---
 auth/cryptosign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..62251b1 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -29,6 +29,10 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 		return nil, errors.New("invalid private key")
 	}
 
+	if len(privateKeyRaw) != ed25519.SeedSize {
+		return nil, fmt.Errorf("invalid private key: must be %d bytes, was %d", ed25519.SeedSize, len(privateKeyRaw))
+	}
+
 	privateKey := ed25519.NewKeyFromSeed(privateKeyRaw)
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
-- 
2.43.0


From 27ebf28f358b9ca8c23d42282346cf5cde4e60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 31/49] fix: refuse a cryptosign pubkey that is not a string

---
 auth/cryptosign.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 62251b1..05280e9 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -43,10 +43,8 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 
 	if authExtra["pubkey"] == nil {
 		authExtra["pubkey"] = publicKeyHex
-	} else if val, ok := authExtra["pubkey"].(string); ok {
-		if val != publicKeyHex {
-			return nil, errors.New("provided pubkey does not correspond to the private key")
-		}
+	} else if val, ok := authExtra["pubkey"].(string); !ok || val != publicKeyHex {
+		return nil, errors.New("provided pubkey does not correspond to the private key")
 	}
 
 	return &cryptoSignAuthenticator{
-- 
2.43.0


From 1aba115b0ac2dca33dd4a7e7cef0286e9ac20ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 32/49] fix: verify cryptosign signatures only under whole
 public keys

---
 auth/cryptosign.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 05280e9..c30983c 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -98,6 +98,11 @@ func VerifyCryptoSignSignature(signature string, publicKey []byte) (bool, error)
 		return false, fmt.Errorf("signed message has invalid length (was %v, but should have been 96)", len(signatureBytes))
 	}
 
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false, fmt.Errorf("public key has invalid length (was %v, but should have been %v)", len(publicKey),
+			ed25519.PublicKeySize)
+	}
+
 	signedOut := make([]byte, 32)
 	var pubkey [32]byte
 	copy(pubkey[:], publicKey)
-- 
2.43.0


From f858c127665ed420562444ac9ed2eed59b31a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 33/49] fix: do not generate the same random IDs in every
 process

---
 idgen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index 3ff7a28..0c81216 100644
--- a/idgen.go
+++ b/idgen.go
@@ -12,8 +12,7 @@ import (
 const maxID uint64 = 1 << 53
 
 func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
+	rand.Seed(uint64(time.Now().UnixNano())) // #nosec
 }
 
 // GenerateID generates a random WAMP ID.
-- 
2.43.0


From cee6253fc1959c2cc1a551607f07f2dffbee9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 34/49] fix: refuse empty messages instead of panicking

---
 serializers/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..303bb01 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -1,6 +1,7 @@
 package serializers
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
@@ -8,6 +9,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, errors.New("empty message")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From 45313f48d2217947cb8bfd0b0b8e87bebcb694a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 35/49] fix: refuse HELLO and AUTHENTICATE that are too short
 instead of panicking

---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From bc9bd2f7f209fe513a9e5ef5c79c658d885b1634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 36/49] fix: refuse negative and fractional IDs

---
 messages/validator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/messages/validator.go b/messages/validator.go
index b0f5169..56f4a1e 100644
--- a/messages/validator.go
+++ b/messages/validator.go
@@ -68,6 +68,11 @@ func validateID(wampMsg []any, index int) (uint64, error) {
 		return 0, fmt.Errorf(errString, index, "uint64", wampMsg[index])
 	}
 
+	// neither negative nor fractional
+	if value, ok := util.AsFloat64(wampMsg[index]); !ok || value != float64(item) {
+		return 0, fmt.Errorf("item at index %d must be a non-negative integer but was %v", index, wampMsg[index])
+	}
+
 	return item, nil
 }
 
-- 
2.43.0


From db673111c2fbeeec86731dbb4bb6fd6431747661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 37/49] fix: refuse messages whose type code is not an integer

---
 serializers/helpers.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 303bb01..df9490d 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
-	"github.com/xconnio/wampproto-go/util"
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
@@ -13,9 +12,13 @@ func ToMessage(wampMsg []any) (messages.Message, error) {
 		return nil, errors.New("empty message")
 	}
 
-	messageType, _ := util.AsUInt64(wampMsg[0])
+	var fields messages.Fields
+	if err := messages.ValidateMessageType(wampMsg, 0, &fields); err != nil {
+		return nil, fmt.Errorf("invalid message type: %w", err)
+	}
+
 	var msg messages.Message
-	switch messageType {
+	switch fields.MessageType {
 	case messages.MessageTypeAbort:
 		msg = &messages.Abort{}
 	case messages.MessageTypeAuthenticate:
-- 
2.43.0


From fa087184256118d480a2ed4156a6d4a0dbbb2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 38/49] fix: send an empty list for absent ABORT arguments
 before keyword arguments

---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From 3fc2bef781817708221e808ec578856d5718c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 39/49] fix: send empty dictionaries in CHALLENGE and WELCOME
 made without any

---
 messages/challenge.go | 4 ++++
 messages/welcome.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 2c1c85d01fea39227c1e105318cbdf348fd4fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 40/49] fix: refuse CBOR payloads of another length instead of
 panicking

---
 serializers/cbor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..1aa6ae4 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -64,6 +64,10 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) != 2 {
+		return nil, nil, fmt.Errorf("invalid payload length: must be 2, was %d", len(payload))
+	}
+
 	args, ok := payload[0].([]any)
 	if !ok {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
-- 
2.43.0


From 19e86e6d17998ef533436f830ddd39e545e2b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 41/49] fix: encode absent arguments so that DecodeCBOR takes
 them

---
 serializers/cbor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index 1aa6ae4..f7b7859 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -47,6 +47,13 @@ func (c *CBORSerializer) Static() bool {
 }
 
 func EncodeCBOR(args []any, kwargs map[string]any) ([]byte, error) {
+	if args == nil {
+		args = []any{}
+	}
+	if kwargs == nil {
+		kwargs = map[string]any{}
+	}
+
 	var payload []any
 	payload = append(payload, args)
 	payload = append(payload, kwargs)
-- 
2.43.0


From becde199139fed7d3d58c77460379577c90ff378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 42/49] fix: decode the payload of a message without arguments

---
 serializers/payload.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..f52b1e2 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -111,6 +123,10 @@ func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
 func DeserializePayload(serializerID uint64, payload []byte) ([]any, map[string]any, error) {
 	switch serializerID {
 	case NoneSerializerID:
+		if payload == nil {
+			return nil, nil, nil
+		}
+
 		return []any{payload}, make(map[string]any), nil
 	case JSONSerializerID:
 		return JSONDecodePayload(payload)
-- 
2.43.0


From 3d5dd0d4dc40fc37ed540d6c43739ddd71ea771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 43/49] fix: refuse MessagePack that exhausts memory or the
 stack

---
 serializers/msgpack.go | 54 +++++++++++++++++++++++++++++++++++++++++-
 serializers/payload.go |  2 +-
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index d52d452..b19ab94 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -1,13 +1,20 @@
 package serializers
 
 import (
+	"bytes"
+	"errors"
+
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 
 	"github.com/xconnio/wampproto-go/messages"
 )
 
 const MsgPackSerializerID = 2
 
+// maxMsgPackDepth is how deep lists and maps may be nested.
+const maxMsgPackDepth = 10000
+
 type MsgPackSerializer struct{}
 
 func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error) {
@@ -16,7 +23,7 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
 	var msgRaw []any
-	if err := msgpack.Unmarshal(payload, &msgRaw); err != nil {
+	if err := unmarshalMsgPack(payload, &msgRaw); err != nil {
 		return nil, err
 	}
 
@@ -35,3 +42,48 @@ func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error
 func (m *MsgPackSerializer) Static() bool {
 	return false
 }
+
+// unmarshalMsgPack decodes data, refusing input that would make the decoder
+// exhaust memory or the stack.
+func unmarshalMsgPack(data []byte, v any) error {
+	if err := checkMsgPack(msgpack.NewDecoder(bytes.NewReader(data)), 0); err != nil {
+		return err
+	}
+
+	return msgpack.Unmarshal(data, v)
+}
+
+// checkMsgPack reads over one value, whose lists and maps must be as long as
+// they say and not nested too deep.
+func checkMsgPack(decoder *msgpack.Decoder, depth int) error {
+	code, err := decoder.PeekCode()
+	if err != nil {
+		return err
+	}
+
+	var items int
+	switch {
+	case msgpcode.IsFixedArray(code), code == msgpcode.Array16, code == msgpcode.Array32:
+		items, err = decoder.DecodeArrayLen()
+	case msgpcode.IsFixedMap(code), code == msgpcode.Map16, code == msgpcode.Map32:
+		items, err = decoder.DecodeMapLen()
+		items *= 2
+	default:
+		return decoder.Skip()
+	}
+	if err != nil {
+		return err
+	}
+
+	if depth == maxMsgPackDepth {
+		return errors.New("msgpack: nested too deep")
+	}
+
+	for i := 0; i < items; i++ {
+		if err = checkMsgPack(decoder, depth+1); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
diff --git a/serializers/payload.go b/serializers/payload.go
index f52b1e2..bf83cd3 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -91,7 +91,7 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 	}
 
 	var arr []any
-	if err := msgpack.Unmarshal(b, &arr); err != nil {
+	if err := unmarshalMsgPack(b, &arr); err != nil {
 		return nil, nil, err
 	}
 
-- 
2.43.0


From bcf050813d0a08c2017f5a0808324981d5e5cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 44/49] fix: take a call's final answer once when answers
 arrive concurrently

RESULT looked its request up and removed it in two steps, so two final
answers received at once could both be taken.
---
 session.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/session.go b/session.go
index f57ec55..223c5dc 100644
--- a/session.go
+++ b/session.go
@@ -128,16 +128,17 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	switch msg.Type() {
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
-		_, exists := w.callRequests.Load(result.RequestID())
+		progress, _ := result.Details()[OptionProgress].(bool)
+		var exists bool
+		if progress {
+			_, exists = w.callRequests.Load(result.RequestID())
+		} else {
+			_, exists = w.callRequests.LoadAndDelete(result.RequestID())
+		}
 		if !exists {
 			return nil, fmt.Errorf("received RESULT for invalid requestID")
 		}
 
-		progress, _ := result.Details()[OptionProgress].(bool)
-		if !progress {
-			w.callRequests.Delete(result.RequestID())
-		}
-
 		return result, nil
 	case messages.MessageTypeRegistered:
 		registered := msg.(*messages.Registered)
-- 
2.43.0


From 25857839e54838d735863383ba3d5babebe15df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 45/49] fix: do not share a procedure registered under another
 matching

---
 dealer.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dealer.go b/dealer.go
index 601e835..0bc5202 100644
--- a/dealer.go
+++ b/dealer.go
@@ -328,9 +328,15 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		invokePolicy := util.ToString(register.Options()[OptionInvoke])
+		match := util.ToString(register.Options()[OptionMatch])
+		if match != MatchPrefix && match != MatchWildcard {
+			match = MatchExact
+		}
+
 		registration, exists := d.registrationsByProcedure[register.Procedure()]
 		if exists {
-			if !isSharedPolicy(registration.InvocationPolicy) || registration.InvocationPolicy != invokePolicy {
+			if !isSharedPolicy(registration.InvocationPolicy) || registration.InvocationPolicy != invokePolicy ||
+				registration.Match != match {
 				err := messages.NewError(messages.MessageTypeRegister, register.RequestID(), map[string]any{},
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
@@ -346,18 +352,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Registrants:      map[uint64]uint64{sessionID: sessionID},
 				callees:          []uint64{sessionID},
 				InvocationPolicy: invokePolicy,
+				Match:            match,
 			}
 
-			match := util.ToString(register.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
-				registration.Match = match
 				d.prefixTree, _, _ = d.prefixTree.Insert([]byte(registration.Procedure), registration)
 			case MatchWildcard:
-				registration.Match = match
 				d.wcRegistrationsByProcedure[registration.Procedure] = registration
-			default:
-				registration.Match = MatchExact
 			}
 		}
 
-- 
2.43.0


From a5f570aaf627d015c5ab7d27a4fdb531db260d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 46/49] fix: do not write the public key into the caller's
 authextra

---
 auth/cryptosign.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index c30983c..1090a36 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -37,19 +37,21 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
 
-	if authExtra == nil {
-		authExtra = map[string]any{}
+	// the caller keeps its map: the public key goes into a copy
+	extra := make(map[string]any, len(authExtra)+1)
+	for key, value := range authExtra {
+		extra[key] = value
 	}
 
-	if authExtra["pubkey"] == nil {
-		authExtra["pubkey"] = publicKeyHex
-	} else if val, ok := authExtra["pubkey"].(string); !ok || val != publicKeyHex {
+	if extra["pubkey"] == nil {
+		extra["pubkey"] = publicKeyHex
+	} else if val, ok := extra["pubkey"].(string); !ok || val != publicKeyHex {
 		return nil, errors.New("provided pubkey does not correspond to the private key")
 	}
 
 	return &cryptoSignAuthenticator{
 		authID:     authID,
-		authExtra:  authExtra,
+		authExtra:  extra,
 		privateKey: privateKey,
 	}, nil
 }
-- 
2.43.0


From 2a3cc0c93d1cac0bfcd812e018a2cfae4dfb4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 47/49] fix: do not write the payload serializer into the
 caller's dictionary

---
 messages/call.go       |  8 +-------
 messages/invocation.go |  8 +-------
 messages/message.go    | 12 ++++++++++++
 messages/result.go     |  8 +-------
 messages/yield.go      |  8 +-------
 5 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/messages/call.go b/messages/call.go
index 8fd924d..c502aae 100644
--- a/messages/call.go
+++ b/messages/call.go
@@ -94,15 +94,9 @@ func NewCallWithFields(fields CallFields) *Call { return &Call{CallFields: field
 
 func NewCallBinary(requestID uint64, options map[string]any, procedure string, payload []byte,
 	serializer uint64) *Call {
-	if options == nil {
-		options = make(map[string]any)
-	}
-
-	options["x_payload_serializer"] = serializer
-
 	return &Call{CallFields: &callFields{
 		requestID:  requestID,
-		options:    options,
+		options:    withPayloadSerializer(options, serializer),
 		procedure:  procedure,
 		binary:     true,
 		payload:    payload,
diff --git a/messages/invocation.go b/messages/invocation.go
index f964940..105d39f 100644
--- a/messages/invocation.go
+++ b/messages/invocation.go
@@ -101,16 +101,10 @@ func NewInvocationWithFields(fields InvocationFields) *Invocation {
 func NewInvocationBinary(requestID, registrationID uint64, details map[string]any, payload []byte,
 	serializer uint64) *Invocation {
 
-	if details == nil {
-		details = make(map[string]any)
-	}
-
-	details["x_payload_serializer"] = serializer
-
 	return &Invocation{InvocationFields: &invocationFields{
 		requestID:      requestID,
 		registrationID: registrationID,
-		details:        details,
+		details:        withPayloadSerializer(details, serializer),
 		binary:         true,
 		serializer:     serializer,
 		payload:        payload,
diff --git a/messages/message.go b/messages/message.go
index ca87ad1..7a7cbcb 100644
--- a/messages/message.go
+++ b/messages/message.go
@@ -11,3 +11,15 @@ type BinaryPayload interface {
 	Payload() []byte
 	PayloadSerializer() uint64
 }
+
+// withPayloadSerializer returns a copy of a dictionary that names the serializer
+// of a binary payload; the dictionary itself belongs to the caller.
+func withPayloadSerializer(dict map[string]any, serializer uint64) map[string]any {
+	result := make(map[string]any, len(dict)+1)
+	for key, value := range dict {
+		result[key] = value
+	}
+
+	result["x_payload_serializer"] = serializer
+	return result
+}
diff --git a/messages/result.go b/messages/result.go
index 1b5f082..e21ec77 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -82,15 +82,9 @@ func NewResultWithFields(field ResultFields) *Result {
 }
 
 func NewResultBinary(requestID uint64, details map[string]any, payload []byte, serializer uint64) *Result {
-	if details == nil {
-		details = make(map[string]any)
-	}
-
-	details["x_payload_serializer"] = serializer
-
 	return &Result{ResultFields: &resultFields{
 		requestID:  requestID,
-		details:    details,
+		details:    withPayloadSerializer(details, serializer),
 		binary:     true,
 		serializer: serializer,
 		payload:    payload,
diff --git a/messages/yield.go b/messages/yield.go
index 88b9162..6341126 100644
--- a/messages/yield.go
+++ b/messages/yield.go
@@ -82,15 +82,9 @@ func NewYieldWithFields(fields YieldFields) *Yield {
 }
 
 func NewYieldBinary(requestID uint64, options map[string]any, payload []byte, serializer uint64) *Yield {
-	if options == nil {
-		options = make(map[string]any)
-	}
-
-	options["x_payload_serializer"] = serializer
-
 	return &Yield{YieldFields: &yieldFields{
 		requestID:  requestID,
-		options:    options,
+		options:    withPayloadSerializer(options, serializer),
 		binary:     true,
 		serializer: serializer,
 		payload:    payload,
-- 
2.43.0


From e570eebbb0057c965b7b08a3073e9e21470314de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 48/49] fix: name the session's own ID in WAMP-CRA challenges

---
 acceptor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acceptor.go b/acceptor.go
index 98c2195..22ba9ee 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -59,6 +59,7 @@ type Acceptor struct {
 	request    auth.Request
 	response   auth.Response
 	challenge  string
+	sessionID  uint64
 
 	sessionDetails *SessionDetails
 }
@@ -145,7 +146,8 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 				return nil, errors.New("internal response for WAMPCRA auth was of invalid type")
 			}
 
-			chStr, err := auth.GenerateWAMPCRAChallenge(GenerateID(), response.AuthID(), response.AuthRole(), "dynamic")
+			sessionID := GenerateID()
+			chStr, err := auth.GenerateWAMPCRAChallenge(sessionID, response.AuthID(), response.AuthRole(), "dynamic")
 			if err != nil {
 				return nil, err
 			}
@@ -162,6 +164,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 
 			a.challenge = chStr
 			a.response = response
+			a.sessionID = sessionID
 			a.state = AcceptorStateChallengeSent
 
 			return messages.NewChallenge(string(authMethod), extra), nil
@@ -231,7 +234,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 				return a.sendAbort(nil), nil
 			}
 
-			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
+			return a.sendWelcome(a.sessionID, a.response, authenticate.Extra()), nil
 		case auth.CryptoSign:
 			authenticate := msg.(*messages.Authenticate)
 			request := a.request.(*auth.RequestCryptoSign)
-- 
2.43.0


From cac389033105c39a16c70cf5cffa7b9ab72b69f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:45 +0000
Subject: [PATCH 49/49] fix: range over maps that hold a nil interface key

---
 internal/map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 454bed9..6f9b22b 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -38,8 +38,9 @@ func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 
 func (m *Map[K, V]) Range(f func(key K, value V) bool) {
 	m.m.Range(func(key, value any) bool {
+		k, _ := key.(K)
 		v, _ := value.(V)
-		return f(key.(K), v)
+		return f(k, v)
 	})
 }
 
-- 
2.43.0

