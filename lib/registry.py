import sub, filter, params, collide, sess, attr, browse, chan, client, codec, disp, event, trust, meth, roles, nodeset, offer, hist, limit, text
CHECKS = {p: sub.run for p in ("S01", "S02", "S03", "S04", "S05", "S06", "S08", "S09")}
def s05(ctx):
    sub.run(ctx)
    collide.run(ctx, 45 if ctx.tier == "quick" else 900)
CHECKS["S05"] = s05
SUBT = "TLA+ specification (spec/Sub.tla) model-checked with TLC; behaviours generated by TLC (SubGen) replayed on the real server in virtual time, and every recorded trace validated against the specification by TLC (SubTrace)"
SUBN = "the specification is explored by TLC; conformance of the code is decided on every generated behaviour (all messages, with content and time, must be those of the specification)"
ABOUT = {p: (SUBT, SUBN) for p in CHECKS}
CHECKS["S07"] = filter.run
ABOUT["S07"] = ("TLA+ operators (spec/Filter.tla) define which samples are reported; TLC generates sample histories with the expected reports; replayed on the real server through the wire", "random histories over all numeric types, scalars and arrays, all triggers and seven deadbands per history")
CHECKS["S10"] = params.run
ABOUT["S10"] = ("TLA+ operators (spec/Params.tla) define the revised values, TLC checks the promised bounds on the whole grid and emits every request with its revision; compared with the real server through the wire, including the observed cycle and expiry times", "whole grid of edge values (about 8000 subscription requests) plus random requests")
CHECKS["N01"] = sess.run("life", 160, 4000, 3)
CHECKS["N02"] = sess.run("time", 160, 4000, 3)
CHECKS["N03"] = sess.run("auth", 160, 4000, 3)
CHECKS["A04"] = attr.run("value", 400, 12000)
CHECKS["A05"] = attr.run("value", 400, 12000, 7)
CHECKS["A06"] = attr.run("perm", 300, 8000)
ST = "TLA+ specification (spec/Sess.tla) of channels, sessions, users and time; its rules checked by TLC exhaustively to a bound; behaviours generated by TLC replayed on the real server by an independent implementation of the secure conversation, each answer compared"
ABOUT["N01"] = ABOUT["N02"] = ABOUT["N03"] = (ST, "bounded exhaustive exploration of the specification, random behaviours of 60 steps on the code")
AT = "TLA+ specification (spec/Attr.tla) of nodes, values, index ranges, access levels and role permissions; TLC checks its invariants and generates behaviours with the outcome of every operation; replayed on the real server through the wire and every result compared"
ABOUT["A04"] = ABOUT["A05"] = ABOUT["A06"] = (AT, "random behaviours of 24 requests on 6 random nodes by two users")
CHECKS["A01"] = browse.run("browse", 700, 8000)
CHECKS["A02"] = browse.run("path", 700, 8000)
CHECKS["A03"] = browse.run("graph", 700, 8000)
BT = "TLA+ specification (spec/Browse.tla) of the node graph, browsing in pages and browse paths; TLC checks its invariants (exhaustively for small graphs) and generates behaviours with every result; replayed on the real server through its API and the wire and compared"
ABOUT["A01"] = ABOUT["A02"] = ABOUT["A03"] = (BT, "random behaviours of 30 steps on graphs of up to 9 nodes, two users")
CHECKS["C01"] = chan.run("sec", 400, 12000)
CHECKS["C02"] = chan.run("frame", 300, 8000)
CHECKS["C03"] = chan.run("token", 300, 8000)
CT = "TLA+ specification (spec/Chan.tla) of the secure channel, its tokens, limits and an attacker; TLC checks its rule over the history exhaustively to a bound and generates behaviours; an independent implementation of the secure conversation replays them on the real server and every effect is compared"
ABOUT["C01"] = ABOUT["C02"] = ABOUT["C03"] = (CT, "random behaviours of 26 steps over all policies and modes")
CHECKS["K01"] = client.run("call", 300, 8000)
CHECKS["K02"] = client.run("sec", 300, 8000)
CHECKS["K03"] = client.run("dial", 150, 4000)
KT = "TLA+ specification (spec/Client.tla) of the client's connection, its calls, their answers and time limits, and of a server (or attacker) that misbehaves; TLC checks its rule over the history exhaustively to a bound and generates behaviours; an independent implementation of a server replays them against the real client in virtual time and every outcome is compared"
ABOUT["K01"] = ABOUT["K02"] = ABOUT["K03"] = (KT, "random behaviours of 26 steps over all policies and modes")
CHECKS["B01"] = codec.run("enc", 1400, 20000)
CHECKS["B02"] = codec.run("dec", 1400, 20000)
BI = "TLA+ specification (spec/Codec.tla, structures of the standard in CodecSchema.tla) of the binary encoding and of its reading with the normal form; TLC checks for every generated value that reading what is written gives it back; "
ABOUT["B01"] = (BI + "each value is built in Go from the specification's tree, encoded and decoded by the real code and compared byte by byte", "random values of all 284 structures and all built-in types, arrays of up to 3 dimensions, nested to depth 3")
ABOUT["B02"] = (BI + "the bytes are altered by TLC, which states whether they must be accepted, and their normal form; the real decoder and encoder must agree, without panic or disproportionate allocation", "one to three alterations of the bytes of random values; nesting up to 3000000")
CHECKS["D01"] = disp.run("disp", 240, 6000)
ABOUT["D01"] = ("TLA+ specification (spec/Disp.tla on Codec.tla) of the services, their operations and limits; TLC generates requests of every kind with their possible answers; sent to the real server by an independent implementation of the secure conversation, every answer counted and compared", "random behaviours of 40 requests with arbitrary members; reading of all attributes of the standard nodes")
CHECKS["E01"] = event.run(300, 8000)
ABOUT["E01"] = ("TLA+ specification (spec/Event.tla) of event items, filters and queues; TLC checks its rules exhaustively to a bound and generates behaviours; the events are raised through the API of the real server and what its clients receive is compared", "random behaviours of 45 steps with up to 5 items, queues overflown, filters without meaning, and events raised while items change")
CHECKS["T01"] = trust.run(500, 12000)
ABOUT["T01"] = ("TLA+ specification (spec/Trust.tla) of which certificate is believed: chains, trust lists, validity, use, host name, revocation and what may be tolerated; TLC checks its promises and generates worlds of certificates with the verdict; they are made and given to the real verification, the real server and the real client", "random worlds of two roots, a cross-certified authority and a leaf, up to six revocation lists, five forms of storage")
CHECKS["M01"] = meth.run(250, 8000)
ABOUT["M01"] = ("TLA+ specification (spec/Meth.tla) of the Call service: what runs, for whom, how often, and what is answered; TLC checks its rule exhaustively to a bound and generates behaviours; they are replayed on the real server with handlers that record their runs", "random behaviours of 30 steps: 4 methods with own or default permissions, 2 users, up to 4 concurrent calls of up to 9 operations, slow handlers, callers that leave, handlers and nodes that come and go")
CHECKS["R01"] = roles.run(300, 8000)
ABOUT["R01"] = ("TLA+ specification (spec/Roles.tla) of the rules that map identities, applications and endpoints to roles, and of the default rules and permissions; TLC checks its rule exhaustively on pairs of rules and generates sets of rules and questions; asked of the real provider, and of the real server through what its users may read, write and call", "random sets of up to 6 rules, 16 steps")
NA = {}
CHECKS["V01"] = nodeset.run(1000, 20000)
ABOUT["V01"] = ("TLA+ specification (spec/Nodeset.tla) of what a server contains after models (UANodeSet documents) were loaded: namespaces, nodes, attributes, values, references at both ends; TLC checks its rule exhaustively for small documents and generates sequences of documents with the resulting content; they are written as XML, loaded into a real server, and read and browsed through the wire", "random sequences of 3 documents of up to 5 nodes of all classes, all kinds of node ids, 24 types of values and arrays of them, aliases, references in any order and direction, lexical variants, documents cut short")
CHECKS["O01"] = offer.run(250, 6000)
ABOUT["O01"] = ("TLA+ specification (spec/Offer.tla) of the endpoints and users that a server offers and accepts by its configuration; TLC checks all configurations exhaustively and generates behaviours; they are replayed on a real server by an independent client over every policy and mode", "all configurations of policy None and kinds of users with 0 to 2 discovery URLs; random behaviours of 16 steps: discovery on every kind of channel, entering by every policy, mode and kind of user, other services on channels for discovery")
CHECKS["H01"] = hist.run(300, 8000)
ABOUT["H01"] = ("TLA+ specification (spec/Hist.tla) of what is recorded of the values of variables and who is told what of it; TLC checks its rule exhaustively to a bound and generates behaviours; they are replayed on a real server whose historian notes what it is given and asked", "random behaviours of 40 steps: 3 variables and an object, 2 users, values set by the program, by users, by handlers and concurrently, recording switched, all kinds of history reads with continuation, denied nodes among allowed ones")
CHECKS["L01"] = limit.run(300, 6000)
ABOUT["L01"] = ("TLA+ specification (spec/Limit.tla) of the limits that a server announces and of what they let through; TLC checks the rule exhaustively to a bound and generates behaviours; they are replayed on a real server configured with those limits", "random behaviours of 40 steps: 14 services with numbers of operations at and around their 9 limits, lengths of strings, byte strings and arrays of 19 types, sessions, subscriptions and continuation points that are used up and given back, all announced variables read")
CHECKS["P01"] = text.run(400, 20000)
ABOUT["P01"] = ("TLA+ specification (spec/Text.tla) of the texts of ids and names, of conversions of ids by a table of namespaces, and of the flags of status codes; TLC checks exhaustively to a bound that different ids have different texts and that conversions are inverse, and generates cases with their outcomes; the real functions are run on them", "random behaviours of 60 cases: ids of all kinds with names made of separators, escapes and other letters, malformed texts, tables of up to 4 namespaces, names and paths, status codes around the flags")
