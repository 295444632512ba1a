#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, obs, hook=True):
    m = dict(history="histories", schedule="schedules", input="inputs", configuration="configurations", fault="fault_sequences")
    over = [m[x] for x in over]
    state = [dict(name=x.strip(), meaning=x.strip(), where=files[0]) for x in state.split(",")]
    mech = [dict(name=mech, where=", ".join(files))]
    obs = [obs]
    hook = "in-memory transport (build tag verif)" if hook else None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state, mechanism=mech, observe_at=obs, hook_needed=hook)))

SUB = ["server/subscription.go", "server/subscription_manager.go", "server/server_service_set.go", "server/session.go"]
ITEM = ["server/datachange_monitored_item.go", "server/subscription.go", "server/scheduler.go", "server/server_service_set.go"]

p("S01", "Notification messages carry gapless sequence numbers and lose nothing",
  "For every subscription, the notification messages sent carry sequence numbers 1, 2, 3, ... without gap or repeat, a keep-alive carries the next unused number without consuming it, and the values queued by a reporting item are delivered exactly once, in the order they were sampled, never more than the subscription's per-publish limit in one message and with the more-notifications flag set exactly when some remain queued. This holds for any interleaving of value changes, publish requests and changes to the subscription or its items.",
  ["history", "schedule"], "every history of value changes, publish requests, modify/delete calls and publishing timer ticks",
  "The order and timing of ticks, value changes and publish requests is unbounded; tests sample one or two.",
  SUB + ["server/datachange_monitored_item.go"], "next sequence number, item queues, publish request queue",
  "publishing timer cycle and immediate answer of late publish requests", "Publish responses on the wire")
p("S02", "Sent notifications stay available for republish until acknowledged",
  "A sent notification message stays listed as available and can be republished with identical content, any number of times, until the owning client acknowledges it, the subscription ends, or 128 newer unacknowledged messages push it out. An acknowledgement answers Good exactly when the message was still available, an unknown-sequence error otherwise and an unknown-subscription error for a subscription that is not the caller's; the results come back in order with the response to the publish request that carried them.",
  ["history", "input"], "every history of publishes, acknowledgements (known, unknown, duplicate, foreign) and republish requests",
  "Depends on the whole acknowledgement history, including queue overflow and requests answered late or immediately.",
  SUB, "retransmission queue", "acknowledge on publish; republish lookup; bounded queue", "AvailableSequenceNumbers, ack results, Republish responses")
p("S03", "Every publish request gets exactly one answer, oldest first",
  "Every publish request is answered exactly once, on the channel it arrived on and with its own request handle: queued requests are consumed oldest first, a request whose own timeout has passed is answered with a timeout and never used, the 65th queued request makes the oldest fail with too-many-publish-requests, and deleting the session's last subscription fails those still queued with no-subscription. A publish request of a session that has no subscription and no pending status change is rejected at once with no-subscription.",
  ["history", "schedule", "input"], "every history of publish requests with any timeout hint, and of subscriptions of that and other sessions",
  "Queue overflow, expiry and late answering only combine in long timed histories.",
  SUB, "session publish request queue", "enqueue/dequeue with overflow and expiry", "Publish responses and service faults per request")
p("S04", "Publishing cycles and keep-alives occur on schedule",
  "While publish requests are available, an enabled subscription with something to report answers one at each publishing interval, the first cycle always answers, and otherwise a keep-alive is sent after the revised keep-alive count of cycles without a response; a disabled subscription sends only keep-alives. When nothing could be sent for lack of a request, the next publish request is answered at once, by the late subscription of highest priority first, and modifying a subscription restarts its cycle with the revised interval.",
  ["schedule", "history"], "every timed history of publish requests, value changes, enable/disable and modify calls",
  "A timed property over arbitrarily long histories; tests only wait for one notification.",
  SUB, "keep-alive counter, late flag, publishing timer", "publish timer and late publish handling", "time stamps and content of publish responses in virtual time")
p("S05", "A subscription expires exactly when its lifetime runs out unserved",
  "A subscription whose due publishing or keep-alive cycles find no publish request for its revised lifetime count in a row is deleted at exactly that cycle and reports a timeout status change with the next sequence number on the session's next publish request; it never expires earlier. Any response, any service call of its owner that names it restarts the count, and the identifiers of a deleted or expired subscription and of its items are from then on unknown to every service.",
  ["schedule", "history"], "every timed history in which publish requests stop and resume at any point",
  "Expiry needs minutes of silence at exact points in the cycle; tests never get there.",
  SUB, "lifetime counter", "expiry in the publishing cycle, status change queue", "status change notifications and service results in virtual time")
p("S06", "Monitored item queues keep order, bound and mark overflow",
  "A data item's queue never holds more than its revised size: when full it drops the oldest entry or replaces the newest according to its discard policy, keeps the rest in sampling order, and marks the entry next to the loss with the overflow bit whenever the size is greater than one. Reducing the queue size keeps the newest (or oldest) entries by the same policy, and disabling an item empties its queue.",
  ["history", "input"], "every sequence of samples, queue sizes, discard policies, resizes and mode changes between publishes",
  "Needs sequences of several samples per publish with resizes in between.",
  ITEM, "item queue", "enqueue with discard policy, trim on modify, clear on disable", "values and status bits of data change notifications")
p("S07", "Data change filters decide exactly which samples are reported",
  "A sample is reported exactly when its status differs from the last reported one or, depending on the trigger of the filter, its value or its source timestamp does; with an absolute deadband a numeric value counts as changed exactly when it differs from the last reported value by more than the deadband, for every numeric type and, element by element, for arrays. The first sample of an item is always reported.",
  ["input", "history"], "every pair of values of every numeric type, deadband, trigger and status",
  "The value space is unbounded and the comparison is against the last reported value, not the last sample.",
  ITEM, "filter and last reported value of an item", "change test per sampling interval", "data change notifications")
p("S08", "Monitoring mode and triggering links decide what is reported",
  "A reporting item reports its changes, a sampling item queues them but reports only when an item linked to trigger it reports or queues a change, and a disabled item neither samples nor reports; leaving the disabled state reports the current value as new. Triggering links are added and removed exactly as requested, per-link results are returned in order, and links to deleted items have no effect.",
  ["history", "input"], "every history of mode changes, link changes, value changes and deletions",
  "Combines three per-item state machines over unbounded histories.",
  ITEM + ["server/event_monitored_item.go"], "item mode, triggering links, triggered flag", "trigger on enqueue, selection at publish", "data change notifications and service results")
p("S09", "A session can act only on its own subscriptions and items",
  "For every service that names a subscription (modify, delete, publishing mode, create/modify/delete items, monitoring mode, triggering, acknowledge, republish, resend) a session that does not own it gets an invalid-subscription answer (an access-denied answer from the methods) and the subscription is left exactly as it was. Publish responses for a subscription are only ever sent to its owner.",
  ["history", "input"], "every interleaving of calls from two sessions on each other's subscriptions",
  "Requires every service crossed with foreign identifiers and a check that nothing changed afterwards.",
  SUB, "subscription owner", "owner check in each handler", "service results and later behaviour of the owner's subscription")
p("S10", "Revised subscription and item parameters stay within the server's bounds",
  "Whatever is requested, the revised publishing interval lies in 125 ms..60 s, the keep-alive count is at least 1 and its span at most 60 s rounded up to one interval, the lifetime is at least three keep-alive counts and 10 s and at most 1 h (rounded up) unless three keep-alives need more, queue sizes lie in 1..1024 and sampling intervals between the server's or the node's minimum and 60 s. Requests already inside the bounds are granted unchanged and the subscription then behaves according to the revised values.",
  ["input"], "every requested interval, count and queue size including 0, negative, NaN, infinities and the largest representable values",
  "Numeric edge cases over the whole parameter space.",
  ["server/subscription.go", "server/datachange_monitored_item.go", "server/event_monitored_item.go"], "subscription and item parameters", "revision on create and modify", "revised values in responses and observed cycle times")

SESS = ["server/server_service_set.go", "server/session_manager.go", "server/session.go"]
p("N01", "Requests are served only for an active session on the channel it is bound to",
  "Every service that needs a session is refused unless its authentication token belongs to a session that was created, successfully activated, not closed and not timed out, and unless it arrives on the very channel of the last successful activation: an unknown, closed or timed-out token is answered BadSessionIDInvalid, a session used before activation BadSessionNotActivated (and the session is closed), another channel BadSecureChannelIDInvalid. A session can be created only with the certificate and application URI of the channel and activated (again, on the same or another channel) only by the client that created it; a refused activation leaves the session as it was. Tokens, session ids and nonces are fresh, the server signature proves possession of its key, at most the configured number of sessions exist at a time, and publish requests still waiting when a session is closed are answered BadSessionClosed.",
  ["history", "input", "configuration"], "every sequence of channel openings and losses, session creations, activations, uses, closings and waits by several clients, for every service and security policy",
  "The outcome of each request depends on the whole history of several channels and sessions; tests follow single happy paths.",
  SESS, "session table, channel binding, session state", "session lookup and channel check in every handler, create/activate/close", "responses on the wire, compared with the outcome the specification prescribes")
p("N02", "A session ends when it is idle for longer than its timeout, and not before",
  "The timeout requested for a session is revised into 10 s to 3600 s (values that are not numbers included) and reported. From the first instant at which no request has used the session for longer than that timeout its token is refused with BadSessionIDInvalid for ever, and at every earlier instant the session still works. Every request that names the session, even a refused activation or one on the wrong channel, restarts the time. A timed-out session stops counting against the session limit at the latest 5 s after its timeout.",
  ["history", "schedule"], "every timed history of requests and pauses, including pauses ending one millisecond before and after the timeout",
  "Needs control of time to the millisecond over long histories with several sessions; tests cannot wait.",
  SESS, "last access time, timeout, session table", "lookup refreshing the last access, periodic check for expired sessions", "responses on the wire in virtual time")
p("N03", "A session acts for a user only if that user was authenticated",
  "A session is activated only when the client signature covers the server certificate and the server nonce last issued for that session with the key of the channel, and the user token is of a policy offered for the endpoint and passes: the anonymous token only if anonymous users are allowed; user name and password exactly as the authenticator accepts them, decrypted with the algorithm of the policy and only if the encrypted secret carries the session's current nonce; a user certificate only with a signature over certificate and current nonce by its own key and if the authenticator accepts it. Everything else (wrong, stale, replayed, truncated, empty, garbage or foreign signatures, tokens, algorithms and policies, an authenticator failing in any way) is answered with a bad status, never crashes, never closes the connection and changes nothing: the session goes on with the identity of its last successful activation, and its permissions are those of exactly that user.",
  ["history", "input", "configuration"], "every sequence of activations with genuine and forged signatures and tokens, for every combination of enabled token types, policy and mode",
  "Adversarial inputs times histories (replayed nonces, re-activation as another user); tests use two valid logins.",
  SESS + ["server/auth_provider.go"], "session nonce, user identity, token policies", "signature and token verification in ActivateSession", "activation results, and what the session can read under per-user permissions")

ATTR = ["server/server_service_set.go", "server/variable_node.go", "server/namespace_manager.go", "server/roles_provider.go"]
p("A04", "Reading returns exactly the attribute, range and status that was asked for",
  "Every Read request gets one result per operation, in order: the current value of exactly that attribute of exactly that node, with the status it was stored with and exactly the timestamps asked for (the source timestamp being the time of the last write); with an index range, exactly the selected elements of an array, characters of a string or bytes of a byte string (clipped at the end), BadIndexRangeInvalid for a malformed range and BadIndexRangeNoData when it selects nothing. Unknown nodes, attributes the node class does not have, data encodings, a negative maximum age, invalid timestamp choices, empty and oversized requests are answered with their specific bad status. A result with a bad status of its own carries no value; reading changes nothing.",
  ["history", "input"], "every sequence of read and write requests on variables of every built-in type and rank, with any attribute, index range, encoding and timestamps",
  "The product of types, ranks, ranges and preceding writes is far larger than the sampled cases.",
  ATTR, "variable values with status and timestamps", "readValue, readRange, selectTimestamps", "Read responses on the wire")
p("A05", "A write stores exactly what was written, or is refused and changes nothing",
  "An operation of a Write request that is answered Good has stored exactly the written value and status: the whole value, or with an index range exactly the selected elements while all others keep their value, also when several operations of a request or several requests write elements of the same variable at the same time. It is accepted only if the value has the data type (or a subtype's type) and rank of the variable and respects the configured length limits; a byte string and an array of bytes convert into each other; null is always accepted. Any other value, range, node or attribute is refused with its specific status and changes nothing, and no combination of value, current value and range crashes the server, nor does writing to a historizing variable that has no historian.",
  ["history", "input", "schedule"], "every sequence of write requests with any value, type, rank, range and status on variables of every type and rank",
  "As for reading; partial writes additionally depend on the current content and on concurrent operations.",
  ATTR, "variable values with status and timestamps", "writeValue, writeRange", "Write results and the values read back and held by the nodes")
p("A06", "Attribute access obeys access levels and the role permissions of the user",
  "Whatever a session may see or change follows from the roles of its own user, the permissions granted to those roles by the node (or, if it has none of its own, by the server), and the node's access level: without Browse permission a node is unknown; the value is readable only with CurrentRead access level and Read permission, writable only with CurrentWrite and Write; Historizing is writable only with WriteHistorizing, RolePermissions readable only with ReadRolePermissions; UserAccessLevel and UserRolePermissions report exactly what applies to this user. A refused operation reveals no value and changes nothing; users with other roles are not affected.",
  ["history", "input", "configuration"], "every assignment of roles to users and of permissions to roles, by node or by server, every access level, and every sequence of reads and writes by several users",
  "The tests use one or two fixed permission sets.",
  ATTR, "role permissions, access levels, user identity of the session", "UserRolePermissions, UserAccessLevel, IsUserPermitted", "Read and Write results per user")
BR = ["server/server_service_set.go: handleBrowse, handleBrowseNext, handleTranslateBrowsePathsToNodeIds, follow, target", "server/session.go: addBrowseContinuationPoint, removeBrowseContinuationPoint", "server/namespace_manager.go"]
p("A01", "Browsing returns exactly the matching references, whole or in pages",
  "Browsing a node returns, for each operation, exactly the references of the node that match the direction, the reference type (with subtypes if asked for) and the node class mask, whose target exists and may be browsed by the user, each once and with exactly the fields of the result mask. With a maximum number of references per node they come in pages of that size: the pages together contain each reference exactly once, the last page has no continuation point. A continuation point works once, only in the session that got it, until it is used or released; a session holds at most the configured number and gets BadNoContinuationPoints beyond; anything else presented as a continuation point, of whatever length, is BadContinuationPointInvalid and harms nothing. Unknown nodes and nodes the user may not browse, invalid directions, reference types and views, empty and oversized requests get their specific status.",
  ["history", "input"], "every graph of nodes and references, every filter, page size, user, and every sequence of Browse and BrowseNext requests",
  "The tests browse a few standard nodes without paging, subtypes or permissions.",
  BR, "nodes, references, permissions; continuation points per session", "Browse, BrowseNext, release", "Browse and BrowseNext results")
p("A02", "Translating a browse path finds exactly the nodes that the path leads to",
  "For every browse path the result contains exactly the nodes reached from the starting node by following, element by element, every reference that matches the direction, reference type and subtypes flag of the element to every existing node with the target name that the user may browse; BadNoMatch if there is none, BadNodeIDUnknown if the starting node does not exist or may not be browsed, BadNothingToDo for an empty path and BadBrowseNameInvalid for an empty name before the last element. Cycles in the graph and long paths do no harm.",
  ["history", "input"], "every graph, path and user",
  "The tests translate one path.",
  BR, "nodes, references, permissions", "follow, target", "TranslateBrowsePathsToNodeIds results")
p("A03", "Adding and deleting nodes keeps the references of the graph consistent",
  "After any sequence of AddNode, AddNodes, DeleteNode, DeleteNodes, DeleteNodeByID and DeleteNodeByIDRecursive, for any two nodes of the address space one has a reference to the other exactly if the other has the inverse reference (type definitions and modelling rules excepted, which are kept on one side), each once; no node keeps a reference to a deleted node; a deletion removes exactly the nodes it names (and, if asked for, everything below them by HasComponent, HasOrderedComponent, HasProperty or HasSubtype) and reports their number, also when they are shared, form cycles or refer to nodes that do not exist; standard nodes cannot be deleted by id. Clients see the result of each change at once.",
  ["history", "input"], "every sequence of additions and deletions of nodes with any references, including cycles, shared children, self references and dangling references",
  "The tests delete from small trees.",
  BR, "the node table and the references of each node", "addNodes, deleteNodeandInverseReferences, GetChildren", "References of all nodes, Browse and Translate results")
CH = ["server/server_secure_channel.go: Open, readRequest, readSequenceHeader, handleOpenSecureChannel, Write, sendServiceResponse, sendOpenSecureChannelResponse, read", "server/server.go: Serve, handleRequest"]
p("C01", "A channel acts only on authentic, fresh, in-order messages of its client",
  "A channel opens only with a security policy and mode that one of the server's endpoints offers (or None/None for discovery, which gives access to discovery services only), with a certificate and signature of that policy; all later messages must be secured as negotiated. The server carries out a request only if it arrives complete and unaltered from the client that opened the channel, under the channel's id and a token it was given, with the next sequence number, all its chunks having one request id. Anything else — altered, cut, replayed, reordered, injected, unsigned, secured by other keys, sent on another channel, an OpenSecureChannel that would change policy, mode or certificate on renewal, a malformed hello, chunk, padding or certificate — has no effect, closes that channel, and leaves the server and its other channels working.",
  ["history", "input", "fault"], "every sequence of valid messages, alterations and attacks, for each security policy and mode",
  "The tests only use well-behaved clients.",
  CH, "channel, tokens and keys, sequence numbers, the variable that is written", "Open, Write, Renew, and the ways each can be altered", "the variable's value, the answers, the closing of the connection")
p("C02", "Messages are split, joined and limited exactly as negotiated, both ways",
  "A request is received as it was sent, however it is cut into chunks and however the stream is segmented, and every response arrives whole: no chunk exceeds the buffer size of the receiver, sequence numbers count up by one, padding and signature are as the policy prescribes. A request within the server's limits of message size and chunk count is carried out; one beyond them is not, and closes the channel. A response that exceeds the client's limits of message size or chunk count is replaced by a service fault BadResponseTooLarge, without sending any part of it, and the channel goes on. Each of several requests sent in one burst is answered once, in any order, under its request id.",
  ["input", "configuration", "history"], "every message length, chunking, segmentation, buffer size and limit, for each security policy and mode",
  "The tests use default limits and small messages.",
  CH, "buffer sizes and limits of both sides, lengths", "Write, Read, Pipe", "chunks on the wire, responses, the variable's value")
p("C03", "Renewing and expiring tokens neither interrupts nor prolongs a channel",
  "Each OpenSecureChannel request is granted a lifetime equal to the requested one limited to 5 to 60 minutes. After a renewal the client may go on under the current token until it first uses the newest one; from then on the server uses the newest token and keys for everything it sends, never mixing them within a message even if one is just being sent, and refuses the former token. No request is lost or refused because of a renewal, any number of renewals may follow each other, and messages continue one sequence. A channel whose current token expires is closed, and no message under an expired token is carried out.",
  ["history", "schedule"], "every sequence of renewals, uses of either token, waits up to and beyond expiration, and traffic in between",
  "The tests never renew a token.",
  CH, "tokens with expiration, current and pending token, clock", "Renew, Write under either token, Wait, Stall", "token ids, keys and sequence numbers on the wire, the variable's value")

CL = ["client/client_secure_channel.go", "client/client.go", "client/client_service_set.go"]
p("K01", "Every client call returns once, in time, with its own answer",
  "Each call of the client returns exactly once: with the answer to exactly this request (whatever the order, number, fragmentation and chunking in which answers arrive, and however many calls wait), with the service result if it is bad, or with an error no later than its time limit (the earliest of the context, the timeout hint of the request and the configured hint), or at once when the context is cancelled, the connection breaks or the client is closed. Answers nobody waits for are ignored and harm nothing; an answer of another type is an error; a request beyond the server's limits is refused without sending any of it and without harm to other calls. Each request is sent once, in consecutive sequence numbers, within the limits of the server. Token renewal happens once at 75% of the lifetime and is invisible to calls. Closing and broken connections leave no call waiting and no connection open; calls made afterwards fail.",
  ["history", "schedule", "fault"], "every sequence of calls (up to 70 at a time), answers in any order, cancellations, waits, renewals, broken or stalled connections, and closing",
  "The tests make a few calls to a well-behaved server in the same process.",
  CL, "calls with time limits, connection, time of renewal", "Call, Answer, AnswerAll, Ignored, Cancel, Wait, Drop, Close, Stall, TooBig", "results of the calls, requests on the wire")
p("K02", "The client accepts only what its server sent, as the server sent it",
  "On every channel, of any policy and mode, a response that is altered, reflected, out of order, of another channel or token, malformed, over the agreed limits or cut short is never delivered to a call: the channel is closed and every waiting call fails. While connecting, a server that refuses, stays silent, answers with something else, or does not hold the key of its certificate makes connecting fail in time (connect timeout or cancellation of the context), leaving no connection behind. Nothing received makes the client panic or wait forever.",
  ["history", "input", "fault"], "every sequence of calls and answers with one of 33 alterations at any chunk, and 35 kinds of misbehaviour at each stage of connecting, under 11 combinations of policy and mode",
  "The tests never alter what the client receives.",
  CL + ["ua/binary_decoder.go"], "connection, waiting calls", "BadAnswer, BadDial, Answer, Call", "results of calls and of connecting, connections left open")
p("K03", "Connecting selects the best allowed endpoint and never exposes a secret",
  "The client uses, of the endpoints offered whose policy it supports and whose policy and mode are those asked for (without a certificate and a policy: None), one with the highest security level, and fails when there is none. It creates a session only with a server that signs the client's nonce and certificate by the key of the certificate of that endpoint, signs the server's nonce in turn by the algorithm of the policy, and presents the user by a token policy of the user's type: a password or issued token is sent encrypted, with the server's nonce, by the token's policy or, where that is empty, by the channel's policy, whatever its length, and in clear only when that policy is None; a user certificate proves its key by a signature. Without a token policy of the type it fails. After closing the client no connection is left.",
  ["input", "configuration"], "every set of offered endpoints and levels, policy and mode asked for, kind of user and token policies, secret lengths, and wrong server signatures and certificates",
  "The tests connect to one server with one user and a few policies.",
  CL + ["client/option.go"], "offer, levels, request of policy and mode, users and their token policies", "Dial", "endpoint opened, identity token received, bytes on the wire")

CO = ["ua/binary_encoder.go", "ua/binary_decoder.go", "ua/binary_registry.go", "ua/structs.generated.go", "ua/enums.generated.go"]
p("B01", "Every value has the bytes the standard gives it, and they read back as it",
  "Every value of the 25 built-in types (variants with scalars and arrays of up to three dimensions, nested data values, extension objects and diagnostic information included) and of the structures of the standard is encoded, into any kind of writer, as exactly the bytes that OPC UA Part 6 prescribes: field order, widths, byte order, flags that tell what is present, identifiers of the encoding and lengths. Decoding these bytes, however the reader delivers them, gives the same value and takes exactly these bytes; no proper prefix of them is accepted. Times outside 1601 to 9999 become the smallest or largest time; an array whose rows differ in length is refused.",
  ["input"], "every value of every type, to any depth of nesting",
  "The tests encode a few dozen values.",
  CO, "value trees of all types, Enc", "Gen, Enc, Norm", "bytes written, values read")
p("B02", "No sequence of bytes harms the decoder, and what it accepts it understood",
  "Decoding arbitrary bytes as any type ends, without panic and without allocating out of proportion to the bytes that are there, whatever lengths, dimensions, flags and nesting they claim. Bytes that are no encoding of the type are refused (too short, lengths or dimensions that do not fit, unknown forms of node ids and extension objects, bodies that end too early); everything else is accepted, and encoding the result gives the normal form of the same value. An extension object takes exactly its stated length: an unknown type is skipped, what follows the known fields is skipped. Values nested up to 100 deep are accepted, thousands are refused.",
  ["input"], "every sequence of bytes, explored as one to three alterations of encoded values of every type, and nesting up to 3000000",
  "The tests only decode what they encoded.",
  CO, "byte sequences, Norm", "Mutate, Norm", "acceptance, bytes taken, normal form, allocation")

DI = ["server/server.go", "server/server_service_set.go", "server/server_secure_channel.go", "server/session_manager.go", "server/history_read_writer.go"]
EV = ["server/event_monitored_item.go", "server/object_node.go", "server/server_service_set.go", "server/namespace_manager.go", "ua/base_event.go"]
p("D01", "Every request is answered once, in kind, with one result per operation",
  "Whatever a request contains, the server answers it exactly once and to the client that sent it: with the response that belongs to the request, or with a fault that carries a bad status; the answer repeats the request handle. A request that names more operations than the server's limits allow is refused with BadTooManyOperations, one that names none with BadNothingToDo; every accepted request has as many results as operations, in their order. No request, however odd its members, makes the server panic, stop answering or fail to encode its answer, and the session, subscriptions and other clients go on as before. Every attribute of every standard node can be read.",
  ["input", "history"], "every service, every request with arbitrary members, in every order",
  "The tests send a few well-formed requests per service.",
  DI, "services, operation limits, sessions, subscriptions", "one request of any kind with any members", "kind of answer, handle, number of results, what goes on")
p("E01", "Each matching event is delivered once, in order, with the selected fields",
  "A monitored item with an event filter on an object takes every event that the object raises while the item is not disabled and that the where clause accepts (no where clause accepts all; OfType includes subtypes; Equals compares values of the same type; elements may refer to later elements), and no other. Each event taken is delivered once while the item reports, in the order of raising, with the values of the selected fields in their order; an item whose queue is full loses its oldest or newest events as configured and no others; disabling an item clears its queue. A filter of any other shape is refused or matches as it can, without panic, endless evaluation or effect on other items; raising events never blocks, whatever happens to the items meanwhile.",
  ["history", "input", "schedule"], "every history of items, filters, modes and events, and every schedule of raising and changing",
  "The tests subscribe to events once and look at one or two.",
  EV, "items, filters, queues, events", "Create, Modify, Mode, Delete, Raise, Deliver, Storm", "events and fields delivered per item")

TR = ["ua/certificate_helpers.go", "server/server_secure_channel.go", "client/client_secure_channel.go", "server/option.go", "client/option.go"]
p("T01", "Only certificates that the configured trust lists vouch for are accepted",
  "A certificate presented to the server (for a signed channel), to the client, or to the validation function is accepted if and only if a chain can be built from it, the certificates presented with it and those of the trusted and issuer lists up to a self-signed certificate of those, with valid signatures; some member of the chain is in the trusted list; every member is within its validity period; the leaf may be used for the purpose and for the host name asked for and its authorities may sign; every member but the root has a current revocation list of its issuer, signed by it, and no such list names it. Only the aspects the user chose to tolerate (host name, time, chain, unknown revocation) are exempt. Certificates and lists are read alike from files, directories, bundles, PEM or DER, whatever else lies there. A refused certificate is stored in the rejected list, an accepted one is not. A peer that presents its authorities with its certificate is answered with the thumbprint of its own.",
  ["input", "configuration"], "all chains, lists, revocation lists, times and tolerances",
  "The tests run with verification skipped.",
  TR, "certificates, trust lists, revocation lists, tolerances", "a world of certificates and its verdict", "accepted or refused, status, rejected list")

ME = ["server/server_service_set.go", "server/method_node.go", "server/object_node.go", "server/scheduler.go"]
p("M01", "A method runs once for each permitted call, and its caller gets its result",
  "Each operation of a Call request whose object and method the user may see, whose object is an object or type of objects, whose method is executable, which the user's roles permit to call, and that has a handler, runs exactly this handler exactly once, with the session, object, method and arguments of the operation, and its status and output arguments come back in the place of the operation; every other operation runs nothing and has a bad status that says why (unknown object, wrong class, no such method, not executable, access denied, not implemented). Handlers replaced and nodes deleted or created count from then on. Requests at the same time, with slow handlers, with many operations or of clients that leave before the answer do not mix, block or lose one another; with none or too many operations nothing runs.",
  ["history", "schedule"], "every history of calls (also concurrent), users, permissions, handlers set and removed, nodes deleted and created",
  "The tests call two methods once.",
  [x for x in ME if os.path.exists(os.path.join("/repo", x))], "roles, permissions, handlers, nodes", "Call, Calls, Leave, Handler, Delete, Create", "handlers that ran with what, results of the operations")

RO = ["server/roles_provider.go", "server/server.go", "server/option.go", "ua/user_identity.go", "ua/role_permission.go"]
p("R01", "A user has exactly the roles that the identity mapping rules give him",
  "A user has a role if and only if some rule for it has a criterion that matches the user (Anonymous: anonymous users; AuthenticatedUser: all others; UserName: the user of that name; Thumbprint: the user with the certificate of that thumbprint, in upper or lower case) and covers the application and the endpoint by its include or exclude list, whatever the number and order of the rules and criteria and whatever the other rules say; a user without any role is denied. Nodes grant exactly what their role permissions grant the roles of the user. With the rules and permissions the library comes with, anonymous users browse and read, and all others may also write and call.",
  ["input", "configuration"], "every list of rules, identity, application and endpoint",
  "The tests use the rules that the library comes with.",
  [x for x in RO if os.path.exists(os.path.join("/repo", x))], "rules, identities", "Rules, Ask, Server", "roles returned, what the user reads, writes and calls")

NS = ["server/namespace_manager.go", "ua/ua_node_set.go", "server/variable_node.go", "server/object_node.go"]
p("V01", "A loaded model is in the server exactly as its document says",
  "After loading UANodeSet documents, in any number and order, the server has every node of theirs with the class, node id, names, texts, type and other attributes that the document gives or, where it gives none, the defaults of the standard; variables have the value written for them, of the type in which it is written (all types, scalars and arrays, structures of the standard), and every reference is found from both its ends, whether it was declared at one or both, before or after its target. Namespace indices of a document, in node ids, browse names and values, are translated to the server's, whose namespaces keep their places; aliases, escapes and optional forms of writing mean the same. A document that cannot be read is reported and changes nothing; unknown parts are skipped; no document makes loading panic.",
  ["input", "history"], "every sequence of documents with nodes of all classes, references, values and lexical forms",
  "The tests load one document and read some of its values.",
  NS, "namespaces, nodes with attributes, values and references", "Load, Bad", "namespace table, attributes read, references browsed")

p("O01", "The server offers exactly what its configuration allows, and serves only that",
  "Whatever the configuration (security policy None allowed or not, which kinds of user identity, which discovery urls), GetEndpoints and CreateSession list exactly the endpoints it allows, each with the server's certificate, one token policy for each kind of user accepted, with security for the proofs and secrets of users, and security levels by which a more protective mode ranks higher; transport profile and server uri filters are honoured. A client that picks an offered endpoint and an offered kind of user is let in and served; with any other endpoint no channel opens, and with any other kind of user no session is activated. Discovery answers on every channel, even on one without security where None is not offered, but such a channel serves nothing else, not even for a session established elsewhere.",
  ["input", "history"], "every configuration, endpoint, kind of user and service on channels for discovery",
  "The tests run one configuration with everything allowed.",
  ["server/server.go", "server/server_service_set.go", "server/server_secure_channel.go", "server/option.go"], "configuration, endpoints and users accepted", "Setup, Ask, Enter, Intrude", "descriptions answered, channels, sessions and requests served")

p("H01", "History is exactly the recorded values, and only permitted users read it",
  "While a variable is historizing and a historian is configured, every value it takes, whether set by the program, written by users, made by a write handler or set concurrently, is given to the historian exactly once, as it is, in the order in which the variable takes them; refused writes and variables that are not historizing record nothing. Historizing is switched by the program and by users with the permission WriteHistorizing only. A HistoryRead that is well formed asks the historian once, by the kind of its details, with exactly those nodes, ranges, continuation points, details, timestamps and release flag, in order, whose history the user may read (permissions Browse and ReadHistory), and answers each operation in its place, denied ones with a bad status; so a history read in pages is the history. One that is not well formed asks nothing and is answered with a fault.",
  ["input", "history", "schedule"], "every history of values, switches, permissions and requests",
  "No test has a historian.",
  ["server/variable_node.go", "server/server_service_set.go", "server/history_read_writer.go", "server/option.go"], "recording, values, permissions", "Set, UWrite, Rush, Handler, Switch, Read, Pages", "what the historian is given and asked, and answers to users")

p("L01", "The limits a server announces are the limits it enforces",
  "Whatever limits a server is configured with, its ServerCapabilities and OperationLimits variables announce exactly them, with values of the right type. Each of the services Read, Write, HistoryRead (of data and of events, each by its own limit), Call, Browse, BrowseNext, RegisterNodes, UnregisterNodes, TranslateBrowsePathsToNodeIds and those of monitored items answers any number of operations up to its limit with one result for each, none with BadNothingToDo, and more with BadTooManyOperations. Written strings, byte strings and arrays are accepted up to the announced length and refused as BadOutOfRange beyond. Sessions, subscriptions and the continuation points of a session are granted up to their limit and refused with their own status beyond; those closed, deleted, read to the end or released make room again, and refusals take none.",
  ["input", "history"], "every configuration of limits, number of operations, length, and history of what is taken and given back",
  "The tests run with the default limits and far below them.",
  ["server/server_service_set.go", "server/server.go", "server/session_manager.go", "server/subscription_manager.go", "server/session.go", "ua/server_capabilites.go"], "limits, sessions, subscriptions, continuation points", "Announce, Use, Write, OpenS, CloseS, Sub, DelSub, More, Done", "answers of the services")

p("P01", "The text of an id or name stands for exactly that id or name",
  "The text of every NodeId, ExpandedNodeId and QualifiedName is the one that OPC UA defines (in the text of a namespace uri the characters ';' and '%' are escaped), different values have different texts, and parsing a text, also in its other allowed forms (explicit namespace 0, upper case guid or escapes), gives back exactly the value, whatever separators, escapes or letters are in its parts. A text that is none (a number that does not fit, an unknown or missing kind, bad base64, a part that is missing) gives no id, never another one; a text without a leading namespace number that fits is a name as a whole. A browse path parses to its names in order. By a table of namespaces an ExpandedNodeId becomes the local NodeId of its namespace, or none for a namespace that is not in the table, and a NodeId becomes the ExpandedNodeId that leads back to it. The predicates of status codes follow their bits.",
  ["input"], "every id, name, uri, text and table of namespaces",
  "The tests parse a few well formed ids.",
  ["ua/nodeid.go", "ua/expanded_nodeid.go", "ua/qualified_name.go", "ua/status_code.go"], "ids, names and their texts", "AnId, NoId, AnX, NoX, Local, Expanded, Name, PlainName, Path, Status", "what the functions return")

def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
main()
