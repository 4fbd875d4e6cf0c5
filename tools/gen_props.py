#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

DS = [("registrationsByProcedure", "live registration per procedure URI", "dealer.go:Dealer"),
      ("prefixTree / wcRegistrationsByProcedure", "pattern registrations", "dealer.go:Dealer"),
      ("pendingCalls / invocationIDbyCall", "invocations awaiting an answer", "dealer.go:Dealer")]
BS = [("subscriptionsByTopic / prefixTree / wcSubscriptionsByTopic", "live subscriptions per topic pattern", "broker.go:Broker"),
      ("subscriptionsBySession", "what each session holds", "broker.go:Broker")]
DR = ("Dealer.ReceiveMessage", "dealer.go"); DX = ("Dealer.RemoveSession", "dealer.go")
BR = ("Broker.ReceiveMessage", "broker.go"); BP = ("Broker.ReceivePublish", "broker.go"); BX = ("Broker.RemoveSession", "broker.go")

p("C01", "A call reaches a session that holds a matching registration",
  "When an attached session sends CALL and at least one attached session currently holds a registration whose URI (exact), prefix or wildcard pattern matches the procedure, the dealer answers with exactly one INVOCATION, addressed to a session that currently holds a matching registration and carrying that registration's ID; when no attached session holds one, the caller gets an ERROR no_such_procedure for its own CALL request ID. A session that has unregistered (got UNREGISTERED) or was removed gets no further invocation for that registration, and its leaving does not take the procedure away from the others that share it.",
  ["histories", "inputs"], "every history of session attach/removal, REGISTER, UNREGISTER and CALL over exact, prefix and wildcard registrations, with any session and request IDs",
  "unit tests register once and call once; they never remove one of several holders, nor call after a pattern registration went away", ["dealer.go"], [DR, DX], ["MessageWithRecipient returned for a CALL"], DS)
p("C02", "The most specific registration answers a call",
  "If several registrations match a called procedure, an exact registration is used before any prefix or wildcard one, among prefix registrations the one with the longest matching prefix is used, and a prefix registration is used before a wildcard one. Registrations that no session holds any more never take part in this choice.",
  ["histories", "inputs"], "every set of overlapping exact/prefix/wildcard registrations, in every registration and removal order, and every called URI",
  "tests only ever have one matching registration at a time", ["dealer.go"], [DR, DX], ["registration ID and recipient of the INVOCATION"], DS)
p("C03", "Register succeeds exactly when the procedure is free or shareable",
  "REGISTER by an attached session succeeds with REGISTERED for its own request ID when no session holds the procedure, or when it is held under a shared invocation policy (first, last, roundrobin, random) and the request names the same policy and the same matching (exact, prefix or wildcard); otherwise the answer is ERROR procedure_already_exists to that session and nothing changes. All holders of one procedure get the same registration ID, two procedures held at the same time never share one, and a procedure is held (as the has-procedure query reports) exactly while some attached session holds it. REGISTER from a session that is not attached is refused with an error.",
  ["histories", "inputs"], "every history of REGISTER/UNREGISTER/session removal with any policy option values",
  "tests cover one duplicate and one policy conflict", ["dealer.go"], [DR, DX], ["REGISTERED / ERROR answers", "HasProcedure"], DS)
p("C04", "Unregister ends exactly the requester's own registration",
  "UNREGISTER naming a registration the sending session currently holds is answered with UNREGISTERED for that request ID and ends that session's hold on it; naming anything else (an unknown ID, another session's registration, one already given up) is refused with an error. In either case the registrations of other sessions, and the sender's other registrations, keep working as before.",
  ["histories", "inputs"], "every history of registrations and UNREGISTER with any session and registration IDs",
  "the tests unregister the only registration of the only callee", ["dealer.go"], [DR], ["UNREGISTERED / error", "routing of later CALLs", "HasProcedure"], DS)
p("C05", "Shared registrations follow their invocation policy",
  "For a procedure shared by several sessions, policy first always invokes the current holder that registered earliest, last the one that registered latest, roundrobin cycles through the current holders so that over any n consecutive calls with an unchanged set of n holders each is invoked exactly once, and random invokes one of the current holders. This stays true after holders leave by UNREGISTER or removal and after others join.",
  ["histories", "inputs"], "every order of joins, leaves and calls for every policy",
  "the test has two callees and never changes the set", ["dealer.go"], [DR, DX], ["recipient of each INVOCATION"], DS)
p("C06", "Every answer reaches the caller that asked, once",
  "The first final YIELD, or ERROR, that the invoked session sends for an invocation is turned into exactly one RESULT, or ERROR of type CALL, addressed to the session that made the call and carrying that call's request ID; any later YIELD or ERROR for that invocation, and any for an invocation ID that was never issued, is refused with an error and reaches nobody. Concurrent calls never swap answers, and invocation IDs of calls in progress are all different.",
  ["histories", "inputs"], "every interleaving of calls and answers from several callers with any request IDs (including equal request IDs of different callers)",
  "tests have one call in flight at a time and one caller", ["dealer.go"], [DR], ["RESULT / ERROR returned for YIELD / ERROR"], DS)
p("C07", "Only the invoked session can answer an invocation",
  "A YIELD or ERROR for an invocation sent by a session other than the one the INVOCATION was addressed to is refused with an error, produces no message to the caller, and leaves the call pending so that the real callee can still answer it.",
  ["histories", "inputs"], "every answering session ID different from the invoked one, for YIELD and ERROR, progressive and final",
  "an existing test even answers from the wrong session; no test checks refusal", ["dealer.go"], [DR], ["result of ReceiveMessage for YIELD / ERROR"], DS)
p("C08", "Progressive calls keep one invocation and one callee",
  "While a call is in progress and the session that got its first part still holds the registration, every further CALL of the same caller with the same request ID and procedure is delivered to that session, under the same invocation ID, and carries the progress flag exactly when the CALL did; this includes the last, non-progress part. The answers to the invocation go to that caller under that request ID; once the call was answered, the same request ID starts a new invocation.",
  ["histories", "inputs"], "every sequence of progressive CALL parts under every invocation policy, interleaved with other calls and answers",
  "the test has a single callee and does not check the ID of the last part", ["dealer.go"], [DR], ["INVOCATION request ID and recipient for each CALL part"], DS)
p("C09", "Progressive results flow only to callers that asked for them",
  "If the CALL asked for progressive results, each YIELD marked progress yields a RESULT marked progress to the caller and the call stays pending until the first YIELD without it (or ERROR); the INVOCATION tells the callee about receive_progress exactly when the caller asked. If the CALL did not ask, no RESULT marked progress is ever sent and the first YIELD completes the call.",
  ["histories", "inputs"], "every sequence of YIELDs with any option values (including non-boolean ones)",
  "the test follows one fixed sequence", ["dealer.go"], [DR], ["RESULT details, pending state"], DS)
p("C10", "Caller identity is disclosed truthfully and only when enabled",
  "With caller disclosure off no INVOCATION carries caller, caller_authid, caller_authrole or procedure details; with it on every INVOCATION carries the calling session's own ID, its authid and authrole as attached, and the called procedure, whatever the CALL options contain. Neither mode lets one caller appear as another.",
  ["histories", "inputs"], "every sequence of enabling/disabling and calls by any attached caller, with any option maps",
  "the test uses one caller and empty options", ["dealer.go"], [DR, ("Dealer.AutoDiscloseCaller", "dealer.go")], ["INVOCATION details"], DS)
p("C11", "The dealer passes payloads through unchanged",
  "Arguments and keyword arguments of CALL, YIELD and invocation ERROR (and the ERROR's URI and details) appear unchanged in the INVOCATION, RESULT or ERROR produced from it; a binary payload and its serializer ID are passed on as binary to a session with a static serializer, for every serializer ID including none (0), and otherwise the decoded arguments are sent.",
  ["inputs", "configurations"], "every combination of args/kwargs presence and values, binary or not, any serializer ID, static or dynamic sessions on both ends",
  "tests never use binary payloads in the dealer and never compare arguments", ["dealer.go", "messages/result.go", "messages/invocation.go", "messages/call.go", "messages/yield.go"], [DR], ["messages returned by the dealer"], DS)
p("C12", "No message sequence crashes or wedges the dealer",
  "For every sequence of session attach/removal and of messages of any type from attached or unattached sessions, each dealer operation returns (a message or an error) without panicking and leaves the dealer usable for the next operation.",
  ["histories", "inputs"], "every bounded history of operations with arbitrary session, request, registration and invocation IDs, options and message types",
  "tests only send well-behaved sequences", ["dealer.go"], [DR, DX], ["return of every dealer call"], DS)
p("C13", "Nothing is routed to a session that has left",
  "Every message the dealer returns is addressed to a session that is attached at that moment (or to the sender of the message being handled); answers for a caller that has been removed are refused with an error, and calls are never routed to a removed callee. Attaching an ID that is already attached, and removing one that is not, is refused with an error and changes nothing.",
  ["histories", "inputs"], "every history with removals between any two steps of a call",
  "tests never remove a session with calls in flight", ["dealer.go"], [DR, DX], ["Recipient of returned messages"], DS)
p("C14", "Events reach exactly the current subscribers",
  "When an attached session publishes to a topic and exactly one subscription (exact, prefix or wildcard) with current subscribers matches it, the event's recipients are exactly the sessions currently subscribed (each once; the publisher itself only if it set exclude_me to false), and when none matches there is no recipient. A session that unsubscribed or was removed gets no further event, and its leaving never stops events to the remaining subscribers. HasSubscription of a URI tells whether a session is currently subscribed to that very URI (under any matching).",
  ["histories", "inputs"], "every history of SUBSCRIBE/UNSUBSCRIBE/session removal/PUBLISH over exact, prefix and wildcard subscriptions with any IDs",
  "tests have one subscriber per topic and never have one of several leave", ["broker.go"], [BR, BP, BX], ["Publication.Recipients", "Publication.Event"], BS)
p("C15", "Subscription IDs identify what the subscriber asked for",
  "SUBSCRIBE by an attached session is answered with SUBSCRIBED for its request ID; all subscribers of the same topic under the same matching (exact, prefix or wildcard) share one subscription ID, different topics or matchings subscribed at the same time never do, and every EVENT carries the ID that its recipients were given for a subscription matching the published topic. UNSUBSCRIBE with an ID the session currently holds is answered with UNSUBSCRIBED and ends only that subscription of that session; any other ID, and any request of a session that is not attached, is refused with an error.",
  ["histories", "inputs"], "every history of SUBSCRIBE/UNSUBSCRIBE/PUBLISH with any IDs",
  "tests check one subscription only", ["broker.go"], [BR, BP], ["SUBSCRIBED / UNSUBSCRIBED / EVENT"], BS)
p("C16", "Every subscription matching a topic gets the event",
  "When several subscriptions match a published topic (exact, prefix of any length, wildcard), the subscribers of each of them receive the event.",
  ["histories", "inputs"], "every set of overlapping subscriptions",
  "tests never have overlapping subscriptions", ["broker.go"], [BP], ["Publication.Recipients"], BS)
p("C17", "Publications are acknowledged exactly on request, with fresh IDs",
  "PUBLISH with acknowledge true is answered with one PUBLISHED to the publisher with its request ID and the publication ID of the event; without it (absent, false or not a boolean) there is no acknowledgement. Every publication gets an ID different from those of all earlier publications of that broker, and the EVENT carries the publication's arguments unchanged.",
  ["histories", "inputs"], "every sequence of publications with any option values and arguments, with and without subscribers",
  "tests check message types only", ["broker.go"], [BP], ["Publication.Ack, Publication.Event"], BS)
p("C18", "Publisher identity is disclosed truthfully and only when enabled",
  "With publisher disclosure off no EVENT carries publisher, publisher_authid, publisher_authrole or topic details; with it on every EVENT carries the publishing session's own ID, its authid and authrole as attached, and the published topic, whatever the PUBLISH options contain.",
  ["histories", "inputs"], "every sequence of enabling/disabling and publications by any attached publisher",
  "the test uses one publisher and fixed options", ["broker.go"], [BP, ("Broker.AutoDisclosePublisher", "broker.go")], ["EVENT details"], BS)
p("C19", "No message sequence crashes or wedges the broker",
  "For every sequence of session attach/removal, publications and messages of any type from attached or unattached sessions, each broker operation returns (a result or an error) without panicking and leaves the broker usable; operations of sessions that are not attached are refused with an error and change nothing.",
  ["histories", "inputs"], "every bounded history of operations with arbitrary IDs, topics and options",
  "tests only send well-behaved sequences", ["broker.go"], [BR, BP, BX], ["return of every broker call"], BS)
SS = [("callRequests .. unsubscribeRequests", "requests awaiting an answer", "session.go:Session"), ("registrations / subscriptions", "IDs confirmed by the router", "session.go:Session")]
SF = [("Session.SendMessage", "session.go"), ("Session.ReceiveMessage", "session.go")]
p("C20", "A client session accepts an answer only for an open request, once",
  "RESULT, REGISTERED, UNREGISTERED, PUBLISHED, SUBSCRIBED, UNSUBSCRIBED and ERROR are accepted exactly if the session sent a request of the matching kind with that request ID (for PUBLISH: with acknowledge true) that has not been answered yet (UNREGISTERED and UNSUBSCRIBED also only while what they end is held), and a final answer closes the request so that a second one is refused with an error; a RESULT marked progress leaves the call open. Requests of other kinds or IDs, even equal IDs of different kinds, are not affected.",
  ["histories", "inputs"], "every sequence of sends and receives with any request IDs and kinds",
  "tests follow one happy path per kind", ["session.go", "internal/map.go"], SF, ["error or message returned by ReceiveMessage"], SS)
p("C21", "A client session accepts events and invocations only for what it holds",
  "EVENT is accepted exactly while its subscription ID was confirmed by SUBSCRIBED and not yet ended by UNSUBSCRIBED, INVOCATION exactly while its registration ID was confirmed by REGISTERED and not yet ended by UNREGISTERED; UNSUBSCRIBE can be sent only for a subscription that is held. Accepted messages are handed to the application unchanged.",
  ["histories", "inputs"], "every sequence of confirmations, endings, events and invocations with any IDs",
  "tests use one ID and never send an event for another", ["session.go", "internal/map.go"], SF, ["error or message returned by ReceiveMessage / SendMessage"], SS)
p("C22", "A client session never crashes on any message",
  "For every message of any type, sent or received in any state, the session returns bytes, a message or an error without panicking; message types a client may not send or receive are refused with an error and change nothing, and so are messages that the session's serializer cannot encode or decode; what is read from the wire is judged like the same message handed to ReceiveMessage.",
  ["histories", "inputs"], "every message type in every reachable state",
  "tests cover the allowed types only", ["session.go"], SF, ["return of SendMessage / ReceiveMessage"], SS)
AF = [("Acceptor.ReceiveMessage", "acceptor.go")]
AS = [("state", "handshake progress", "acceptor.go:Acceptor"), ("challenge / request / response", "what was issued and approved", "acceptor.go:Acceptor")]
p("C23", "The acceptor welcomes only peers it authenticated",
  "A WELCOME is sent only if the server authenticator approved a request built from this peer's own HELLO (and, for ticket, from the ticket it then presented) and, for WAMP-CRA and cryptosign, the peer's AUTHENTICATE carries a valid signature made with the secret or private key that the approved request designates; a peer with the right credentials is welcomed, any other gets ABORT or an error and no session. The session details and WELCOME carry the realm of the HELLO, the authid and authrole the authenticator returned, the method used and the router's roles; the authextra of the session is that of AUTHENTICATE.",
  ["inputs", "histories"], "every HELLO, every authenticator verdict and every AUTHENTICATE content, for all four methods, with cryptography idealised",
  "tests try one right and one wrong secret per method", ["acceptor.go", "auth/wampcra.go", "auth/cryptosign.go", "auth/authenticator.go"], AF, ["message returned by ReceiveMessage", "SessionDetails"], AS)
p("C24", "A proof is only accepted for the challenge of this handshake",
  "For WAMP-CRA and cryptosign the signature in AUTHENTICATE is accepted only if it signs the very challenge this acceptor issued in this handshake; a signature by the right key over any other challenge (for example one recorded from an earlier handshake) is answered with ABORT and no session is established. Each handshake draws a fresh challenge with at least 16 random bytes.",
  ["inputs", "histories"], "every other challenge signed with the right key",
  "tests never replay a signature", ["acceptor.go", "auth/cryptosign.go", "auth/wampcra.go"], AF, ["message returned for AUTHENTICATE"], AS)
p("C25", "The handshake follows its order and ends once",
  "The acceptor accepts HELLO at most once, and only before anything else was accepted, and AUTHENTICATE only as the answer to its CHALLENGE, refuses every other message with an error without establishing a session, and sends at most one WELCOME; session details are available exactly after WELCOME. After it has sent ABORT or WELCOME it accepts nothing more: every further message is refused with an error.",
  ["histories", "inputs"], "every sequence of messages of any type, for every method and authenticator verdict",
  "tests follow the happy path and one failed attempt, then stop", ["acceptor.go"], AF, ["messages, errors, SessionDetails"], AS)
p("C26", "The first client method the server offers is used, else abort",
  "For a non-empty list of methods in HELLO, the acceptor uses the first one in the client's order that the server authenticator offers (an authenticator offers non-empty names) and never one it does not offer; if none is offered it answers ABORT without asking the authenticator. For an empty list the method is anonymous, subject to the authenticator's approval.",
  ["inputs", "configurations"], "every list of proposed methods and every set of offered methods",
  "the test has three fixed lists", ["auth/helpers.go", "acceptor.go"], [("SelectAuthMethod", "auth/helpers.go")] + AF, ["CHALLENGE/ABORT, SelectAuthMethod result"], AS)
JF = [("Joiner.ReceiveMessage", "joiner.go"), ("Joiner.SendHello", "joiner.go")]
p("C27", "The joiner only joins when the handshake allows it and never crashes",
  "The joiner accepts WELCOME only after it sent HELLO (directly or after answering one CHALLENGE), answers CHALLENGE only once and only before WELCOME, turns ABORT into an error that names the reason, and refuses everything else with an error; after ABORT no WELCOME is accepted. Session details exist exactly after an accepted WELCOME and hold its session ID, authid, authrole, authmethod, roles and the joined realm. No WELCOME, CHALLENGE or ABORT content makes it panic.",
  ["histories", "inputs"], "every sequence of messages with any details and extra maps, for every client authenticator",
  "tests send one well-formed WELCOME", ["joiner.go", "auth/wampcra.go", "auth/cryptosign.go", "auth/ticket.go", "auth/anonymous.go"], JF, ["messages, errors, SessionDetails"])
p("C28", "Joiner and acceptor agree on the session they establish",
  "When a joiner and an acceptor complete a handshake with each other over any of the serializers, both hold session details with the same session ID, realm, authid, authrole, authmethod and router roles, where authid and authrole are those the authenticator granted; with matching credentials the handshake always completes, for every method including salted WAMP-CRA with any iteration count and key length, and with non-matching credentials it never does.",
  ["inputs", "configurations"], "every realm, authid, role, credential and salting parameters, over each serializer",
  "tests use one fixed identity and no salt, and only check that details exist", ["acceptor.go", "joiner.go", "auth"], AF + JF, ["SessionDetails on both sides"])
p("C29", "WAMP-CRA signatures verify exactly for their challenge and key",
  "The challenge the acceptor issues names the session ID, authid and authrole that WELCOME will grant, the method, and a timestamp and nonce. A signature made for a challenge with a key verifies for that challenge and key, and for no other challenge, key or altered signature; the salted key depends only on salt, secret, iterations and key length (0 meaning the defaults 1000 and 32), is the same on both sides and no parameter values make the derivation panic.",
  ["inputs"], "every challenge, key, salt and parameter value (HMAC and PBKDF2 idealised as collision-free functions)",
  "tests use one vector each", ["auth/wampcra.go"], [("SignWAMPCRAChallenge / VerifyWAMPCRASignature / DeriveWAMPCRAKey", "auth/wampcra.go")], ["results"])
p("C30", "Cryptosign keys and signatures are bound to each other, safely",
  "A challenge signed with a private key verifies under its public key and under no other, and malformed signatures (not hex, wrong length) are refused; generated key pairs work together. The client authenticator publishes the public key of its private key, refuses a private key that is not 32 hex-encoded bytes or a given pubkey that does not belong to it, and never panics.",
  ["inputs"], "every private key string, pubkey value, challenge and signature (ed25519 idealised)",
  "tests use one key", ["auth/cryptosign.go"], [("NewCryptoSignAuthenticator / SignCryptoSignChallenge / VerifyCryptoSignSignature", "auth/cryptosign.go")], ["results"])
MF = [("ToMessage", "serializers/helpers.go"), ("ValidateMessage and the per-message specs", "messages/validator.go")]
p("C31", "No received message crashes the parser",
  "For every value a peer can encode (any list of any length with elements of any type, or no list at all), in JSON, MessagePack and CBOR, deserialising returns a message or an error and never panics.",
  ["inputs"], "every list up to the stated length with elements of every decodable dynamic type, through each serializer",
  "tests parse well-formed messages only", ["serializers", "messages"], MF, ["return of Deserialize / Parse"])
p("C32", "A message is accepted exactly when it is well formed, and read faithfully",
  "A received list becomes a message of the type its code names exactly when its length is within that type's bounds and each element has the type the protocol gives it (IDs numbers that are whole and not negative, URIs and other names strings, options/details/extra maps, args lists, kwargs maps); otherwise it is refused with an error. Every field of the accepted message equals the element at its position, absent args/kwargs stay absent, and unknown type codes are refused.",
  ["inputs"], "every message type, list length and element type and value",
  "tests check the validators one at a time on fixed values", ["messages", "serializers/helpers.go"], MF, ["parsed fields"])
p("C33", "Every message survives its wire encoding",
  "Any message of any of the 24 types built with the constructors and sent through JSON, MessagePack or CBOR is decoded by the same serializer into a message of the same type with equal IDs, URIs and strings, and equal options/details/args/kwargs up to the codec's number types (binary-payload variants, which these serializers do not carry, aside); absent or empty args never make the message undecodable, whether or not kwargs are present. A message made from fields of the user's own (New…WithFields) is the message those fields describe. Marshalling uses the protocol's type code and field order.",
  ["inputs", "configurations"], "every message type with any field values and any presence of args and kwargs, over each serializer",
  "in-tree tests round-trip one ABORT", ["messages", "serializers"], MF + [("Marshal of each message", "messages")], ["Deserialize(Serialize(m))"])
p("C34", "IDs are read correctly whatever integer type the codec delivers",
  "Every ID between 0 and 2^53 (and message type code) is read with exactly its value, whichever signed or unsigned integer width or float type the decoder delivers it in, as long as that type can represent it exactly; non-numeric values and negative or fractional numbers are refused.",
  ["inputs"], "every value and every Go numeric type",
  "tests use one value for some of the types", ["util/util.go", "messages/validator.go"], [("AsUInt64", "util/util.go"), ("validateID", "messages/validator.go")], ["parsed IDs"])
p("C35", "Binary-payload messages report their payload consistently",
  "A CALL, INVOCATION, YIELD or RESULT built from a binary payload reports that it is binary, and returns exactly the payload bytes and serializer ID it was given, for every serializer ID including 0, and records that ID in its options or details; one built from arguments reports that it is not. No other message reports a binary payload.",
  ["inputs"], "every payload, serializer ID and option map",
  "no test builds a binary message", ["messages"], [("New*Binary and PayloadIsBinary/Payload/PayloadSerializer", "messages")], ["accessors"])
p("C36", "Payloads survive encoding and malformed ones are refused",
  "Arguments and keyword arguments encoded as a payload with any supported serializer ID decode with the same ID to equal arguments and keyword arguments (up to the codec's number types), also when one or both are empty, in the format the ID names (1 JSON, 2 MessagePack, 3 CBOR); ID 0, no serializer, carries exactly one byte string as it is and refuses anything else; unknown serializer IDs and payloads that decode to something other than a list of args and optional kwargs are refused with an error; the EncodeCBOR/DecodeCBOR pair likewise carries exactly args and kwargs. No payload makes decoding panic.",
  ["inputs", "configurations"], "every presence and value of args/kwargs, every serializer ID, every decodable payload shape",
  "no test covers the payload codecs", ["serializers/payload.go", "serializers/cbor.go"], [("SerializePayload / DeserializePayload / EncodeCBOR / DecodeCBOR", "serializers")], ["results"])
p("C37", "Rawsocket handshakes are read as written and bad ones refused",
  "For every power-of-two maximum size from 512 bytes to 16 MiB and every serializer code 1 to 15, sending a handshake gives 4 bytes (0x7F first, zeros last) that the receiver reads back as the same size and serializer; any other size is refused with an error. The serializers' codes are those of the protocol: JSON 1, MessagePack 2, CBOR 3. Receiving any other byte sequence (wrong length, first byte, or nonzero reserved bytes) is refused with an error, and nothing panics.",
  ["inputs"], "every int size and serializer code, and every byte sequence",
  "no test covers transports", ["transports/rawsocket.go"], [("SendHandshake / ReceiveHandshake", "transports/rawsocket.go")], ["results"])
p("C38", "Rawsocket message headers carry kind and length exactly",
  "For every message kind and every length from 0 to 2^24-1, the header sent is 4 bytes from which the receiver reads the same kind and length; the 3-byte length is big-endian, and the kinds are those of the protocol: WAMP message 0, ping 1, pong 2. Receiving a byte sequence that is not exactly 4 bytes long is refused with an error, and nothing panics.",
  ["inputs"], "every kind, length and byte sequence",
  "no test covers transports", ["transports/rawsocket.go"], [("SendMessageHeader / ReceiveMessageHeader / IntToBytes / BytesToInt", "transports/rawsocket.go")], ["results"])
p("C39", "IDs stay in the protocol range and do not repeat",
  "Every random session ID is between 1 and 2^53-1 and every sequential ID between 1 and 2^53; sequential IDs start at 1, grow by one and wrap from 2^53 to 1, so no two of 2^53 consecutive ones are equal. Different generator instances are independent, and random IDs are drawn afresh from the whole range each time, not the same ones in every process.",
  ["inputs", "histories"], "every random draw and every generator position including the wrap-around",
  "tests draw a handful of IDs", ["idgen.go"], [("GenerateID / SessionScopeIDGenerator.NextID", "idgen.go")], ["returned IDs"])
p("C40", "Dealer and broker operations are atomic under concurrency",
  "Any operations of the dealer (or of the broker) called from several goroutines at once have no data race and no deadlock, and give answers and a final state that some order of the same operations one after the other would give.",
  ["schedules", "inputs"], "every interleaving of the operations' synchronisation and memory accesses, for two or three concurrent operations of any kinds",
  "the tests never call concurrently", ["dealer.go", "broker.go", "idgen.go"], [("Mutex held for the whole of each operation", "dealer.go, broker.go")], ["results of concurrent calls"], DS + BS)
p("C41", "ID generator and client session are safe for concurrent use",
  "Concurrent NextID calls on one generator return different IDs, none left out, without data race; and a client session may send and receive from different goroutines without data race or deadlock: the answers and the final state of two concurrent operations are those of one after the other, and exactly one of several concurrent final answers to a request (RESULT, REGISTERED, PUBLISHED and so on, or ERROR) is accepted.",
  ["schedules", "inputs"], "every interleaving of two operations of any kinds, and of two or three answers or NextID calls",
  "the tests never call concurrently", ["idgen.go", "session.go", "internal/map.go"], [("SessionScopeIDGenerator.Mutex", "idgen.go"), ("internal.Map over sync.Map", "internal/map.go")], ["results of concurrent calls"], SS)
p("C42", "Value conversions keep the value or refuse",
  "Converting a dynamic value to int, uint64, float64, bool or string succeeds for every Go numeric type (respectively bool, string) and returns exactly the given value whenever the target type can represent it exactly, truncating fractions toward zero for integers; conversion to int reports failure instead of a wrong value for numbers outside int's range, and any other dynamic type (including nil) is reported as failure with the zero value.",
  ["inputs"], "every value of every Go basic type",
  "tests use one value for some of the types", ["util/util.go"], [("AsInt / AsUInt64 / AsFloat64 / AsBool / AsString / AnysToStrings", "util/util.go")], ["results"])
p("C43", "Timestamps are written with the right zone offset",
  "The ISO 8601 text of an instant is its local date and time to the second followed by Z when its zone offset is zero and otherwise by the sign and the two-digit hours and two-digit minutes of the offset.",
  ["inputs"], "every zone offset between -23:59 and +23:59 in whole minutes",
  "the test uses a few zones", ["auth/iso8601.go"], [("ISO8601", "auth/iso8601.go")], ["returned string"])
p("C44", "The typed concurrent map behaves like a map",
  "For every sequence of store, load, delete, load-and-delete, load-or-store and range, the map returns what a plain map of the same key and value types would, including the zero value and false for absent keys and early stop of range.",
  ["histories", "inputs"], "every operation sequence with any keys and values",
  "the test performs one sequence", ["internal/map.go"], [("Map", "internal/map.go")], ["results"])

p("C45", "Calls and events work end to end between clients of any serializers",
  "For clients connected to one dealer and broker through serializers of their own (JSON, MessagePack or CBOR, in any combination), a registered procedure can be called, with the call's args and kwargs arriving at the callee, its progressive results, result or error arriving with theirs at the caller under the caller's request ID (the result or error ends the call: another is refused), and a call after UNREGISTERED answered with no_such_procedure; an event arrives once at each subscriber with the published args and kwargs, at the publisher exactly if asked for, acknowledged exactly if asked for, and no longer after UNSUBSCRIBED. A client and router that complete a handshake can go on like this with the session they established.",
  ["configurations", "inputs"], "every pair of serializers, payload shape, matching kind, set of options and IDs, over the whole path from the session that sends to the session that receives",
  "the tests exercise each part alone, against hand-made messages", ["dealer.go", "broker.go", "session.go", "serializers", "messages", "joiner.go", "acceptor.go"], [DR, BR, BP, ("Session.SendMessage / Receive", "session.go"), ("Serialize / Deserialize", "serializers")], ["messages returned by Session.Receive on each side"])
p("C46", "Messages and values handed in or out are not changed behind one's back",
  "A message given to the dealer, broker, session, joiner, acceptor or a serializer is not modified by it, nor are the option and detail dictionaries, arguments, payloads and authextra that callers hand to constructors and authenticators; and a message, recipient list, encoded message, handshake or header that was handed out stays as it was, whatever is received, registered, subscribed, removed or encoded afterwards. Two messages or authenticators made from the same dictionary do not affect each other.",
  ["histories", "inputs"], "every history of dealer and broker operations, and every pair of messages or authenticators made from one dictionary",
  "the tests look at each message at once and only once, and make every dictionary afresh", ["dealer.go", "broker.go", "messages", "auth", "serializers"], [DR, BR, BP, ("constructors", "messages, auth")], ["Marshal of messages, recipient lists, dictionaries and byte slices compared with copies taken earlier"])
p("C47", "Separate instances do not influence each other",
  "What a dealer, broker, session, joiner or acceptor answers depends only on what that instance was given (and on fresh random IDs, keys and challenges): operations on another instance of the same kind, in whatever order the two are interleaved, never change its answers, its registrations, subscriptions, pending requests or session details.",
  ["histories"], "every interleaving of operations on two instances",
  "each test uses one instance", ["dealer.go", "broker.go", "session.go", "joiner.go", "acceptor.go"], [DR, BR, BP, ("Session.SendMessage / Receive", "session.go"), ("Joiner.Receive / Acceptor.Receive", "joiner.go, acceptor.go")], ["answers compared with those of an instance that is operated on alone"])
p("C48", "The joiner introduces itself truthfully",
  "HELLO names the realm the joiner was made for, the authid and the one method of its client authenticator, carries that authenticator's authextra unchanged (with the public key added for cryptosign), and announces exactly the client's four roles with their features, over each serializer. A joiner made without an authenticator introduces itself as anonymous with an empty authid.",
  ["inputs", "configurations"], "every realm, authid, authextra and authenticator, through each serializer",
  "the tests only look at the state after SendHello", ["joiner.go", "auth"], [("Joiner.SendHello", "joiner.go"), ("ClientRoles", "joiner.go"), ("client authenticators", "auth")], ["the HELLO as the other side decodes it"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
