package harness

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["chan"] = runChan }

type cStep struct {
	Op, Mut, Tok, Want string
	Life, Wlife        int64
	K, L, N, At, Frag  int
	D                  int64
}
type cCase struct {
	Conf struct {
		Pol                       string
		None                      bool
		SB, B, M, C, R, S, Mm, Mc uint32
	}
	Steps []cStep
}

func cPattern(k, l int) ua.ByteString {
	b := binary.LittleEndian.AppendUint32(nil, uint32(k))
	for i := 0; i < l; i++ {
		b = append(b, byte(k*31+i*7+(i>>8)*13))
	}
	return ua.ByteString(b)
}

func cDecode(v any) (int, int) {
	b, ok := v.(ua.ByteString)
	if !ok || len(b) < 4 {
		return -1, 0
	}
	k := int(binary.LittleEndian.Uint32([]byte(b)))
	if b != cPattern(k, len(b)-4) {
		return -2, len(b) - 4
	}
	return k, len(b) - 4
}

func ecdsaCert() []byte {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "ec"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return der
}

type cWorld struct {
	*env
	c              cCase
	p              *Peer
	s              *mSess
	cur, pend, old uint32
	sent           [][][]byte // the chunks of the write requests that were accepted on this channel
	before         [][][]byte // ... and on earlier ones
	opns           [][]byte   // renewals
	back           [][]byte   // chunks received
	notes          []string
	seq            uint32 // last sequence number received
	tokWant        uint32
}

func (w *cWorld) note(f string, a ...any) { w.notes = append(w.notes, fmt.Sprintf(f, a...)) }

// recv takes what arrived and checks its form.
func (w *cWorld) recv(p *Peer) (msgs []Rx, closed bool) {
	for _, r := range p.take() {
		switch r.Kind {
		case "EOF":
			closed = true
		case "ERR":
		case "ACK":
		case "BAD":
			w.note("received something wrong: %s", r.Err)
		default:
			for _, q := range r.Seqs {
				if w.seq != 0 && q != w.seq+1 {
					w.note("sequence number %d after %d", q, w.seq)
				}
				w.seq = q
			}
			for _, t := range r.Tokens {
				if t != w.tokWant {
					w.note("message under token %d, want %d", t, w.tokWant)
				}
			}
			if r.Kind == "MSG" {
				w.back = append(w.back, r.Raw...)
			}
			c := w.c.Conf
			if uint32(r.MaxLen) > c.R {
				w.note("chunk of %d bytes, limit %d", r.MaxLen, c.R)
			}
			if c.Mm > 0 && uint32(r.BodyN) > c.Mm {
				w.note("message of %d bytes, limit %d", r.BodyN, c.Mm)
			}
			if c.Mc > 0 && uint32(r.Chunks) > c.Mc {
				w.note("message of %d chunks, limit %d", r.Chunks, c.Mc)
			}
			msgs = append(msgs, r)
		}
	}
	return
}

// write sends bytes in pieces.
func (w *cWorld) put(p *Peer, b []byte, frag int) {
	if frag == 0 {
		p.raw(b)
		return
	}
	for n := 0; len(b) > 0; n++ {
		k := min(frag, len(b))
		if n > 400 {
			k = len(b)
		}
		p.raw(b[:k])
		b = b[k:]
		if n < 40 {
			synctest.Wait()
		}
	}
}

func (w *cWorld) keysOf(tok uint32) symKeys { return w.p.sendKeys(w.p.tokens[tok]) }

// chunks builds the n chunks of a request.
func (w *cWorld) chunks(body []byte, n int, tok, id uint32) []chunkSpec {
	var out []chunkSpec
	for i := 0; i < n; i++ {
		lo, hi := len(body)*i/n, len(body)*(i+1)/n
		t := "MSGC"
		if i == n-1 {
			t = "MSGF"
		}
		out = append(out, chunkSpec{typ: t, channel: w.p.channelID, token: tok, keys: w.keysOf(tok), reqID: id, body: body[lo:hi], pad: -1})
	}
	return out
}

func (w *cWorld) hello(p *Peer, mut string) {
	c := w.c.Conf
	r, s := c.R, c.S
	switch mut {
	case "smallBuffers":
		r, s = 1000, 1000
	case "tinyBuffers":
		r, s = 0, 0
	}
	p.raw(p.hello(r, s, c.Mm, c.Mc, endpointURL))
	synctest.Wait()
}

func (w *cWorld) writeReq(k, l, i int) *ua.WriteRequest {
	return &ua.WriteRequest{RequestHeader: hdr(w.s.token, uint32(i), 0), NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDString(w.ns, "v"), AttributeID: ua.AttributeIDValue,
		Value: ua.NewDataValue(cPattern(k, l), 0, time.Time{}, 0, time.Time{}, 0)}}}
}

// open opens a channel; mut says what is wrong with it.
func (w *cWorld) open(st cStep) string {
	polName := w.c.Conf.Pol
	conn, err := w.ln.Dial()
	if err != nil {
		panic(err)
	}
	p := newPeer(conn)
	p.born = w.t0
	p.keepRaw = true
	p.start()
	pol, mode := polOf(polName)
	p.secure(pol, mode, "client1")
	w.seq, w.tokWant = 0, 0
	if st.Mut == "noHello" {
		p.sendOpen(ua.SecurityTokenRequestTypeIssue, 3600000, 1)
		return w.refused(p)
	}
	w.hello(p, st.Mut)
	if st.Mut == "junkFirst" {
		p.raw([]byte("GET / HTTP/1.1\r\n\r\n"))
		return w.refused(p)
	}
	life := uint32(min(st.Life*1000, 4294967295))
	p.lastCNonce = nonce(polDefs[p.policy].nonce)
	req := &ua.OpenSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: 1}, RequestType: ua.SecurityTokenRequestTypeIssue, SecurityMode: p.mode, ClientNonce: ua.ByteString(p.lastCNonce), RequestedLifetime: life}
	o := opnOpts{policy: p.policy, cert: p.cert, key: p.key}
	body := p.encodeBody(req)
	ready := []byte(nil)
	switch st.Mut {
	case "none":
	case "msgFirst":
		ready = p.buildChunk(chunkSpec{typ: "MSGF", channel: 1, token: 1, keys: symKeys{make([]byte, 32), make([]byte, 32), make([]byte, 16)}, seq: 1, reqID: 1, body: body, pad: -1})
	case "modeNone", "modeInvalid", "noneSign", "noneSignCert":
		req.SecurityMode = map[string]ua.MessageSecurityMode{"modeNone": ua.MessageSecurityModeNone, "modeInvalid": 7, "noneSign": ua.MessageSecurityModeSign, "noneSignCert": ua.MessageSecurityModeSignAndEncrypt}[st.Mut]
		if st.Mut == "modeNone" && p.policy == polNone {
			p.secure(polB256S, modeSignE, "client1")
			o = opnOpts{policy: p.policy, cert: p.cert, key: p.key}
		}
		if st.Mut == "noneSignCert" {
			o.cert, _ = loadPair("client1")
		}
		body = p.encodeBody(req)
	case "unknownPolicy":
		ready = p.buildOPNx(body, 1, opnOpts{policy: "http://opcfoundation.org/UA/SecurityPolicy#Best", cert: p.cert})
	case "badCert":
		ready = p.buildOPNx(body, 1, opnOpts{policy: polB256S, cert: []byte("no certificate at all")})
	case "ecdsaCert":
		ready = p.buildOPNx(body, 1, opnOpts{policy: p.policy, cert: ecdsaCert()})
	case "noCert":
		ready = p.buildOPNx(body, 1, opnOpts{policy: p.policy})
	case "wrongBody":
		body = p.encodeBody(&ua.GetEndpointsRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL})
	case "emptyBody":
		body = nil
	case "nonFinal":
		o.typ = "OPNC"
	case "badSig":
		o.badSig = true
	case "otherKey":
		_, o.key = loadPair("client2")
	case "shortCipher":
		o.noCipher = true
	case "sigOnly":
		o.sigOnly = true
	case "padding":
		o.pad = 255
		body = body[:60]
	case "flipCipher":
		ready = p.buildOPNx(body, 1, o)
		ready[len(ready)-77] ^= 16
	case "smallBuffers", "tinyBuffers":
	default:
		panic("unknown mutation " + st.Mut)
	}
	if ready == nil {
		ready = p.buildOPNx(body, 1, o)
	}
	p.raw(ready)
	if st.Mut != "none" {
		return w.refused(p)
	}
	synctest.Wait()
	msgs, closed := w.recv(p)
	if closed || len(msgs) != 1 || msgs[0].Kind != "OPN" {
		return fmt.Sprintf("opening failed: %+v %v", msgs, closed)
	}
	r := msgs[0].Msg.(*ua.OpenSecureChannelResponse)
	if int64(r.SecurityToken.RevisedLifetime) != st.Wlife*1000 {
		w.note("lifetime %d, want %d", r.SecurityToken.RevisedLifetime, st.Wlife*1000)
	}
	w.p = p
	p.nextReq = 10
	w.before = append(w.before, w.sent...)
	w.sent, w.opns, w.back = nil, nil, nil
	w.cur, w.pend, w.old = r.SecurityToken.TokenID, 0, 0
	w.tokWant = w.cur
	// take the session over
	sc, _ := loadPair("server")
	a, other := p.ask(activation(sessStep{Tok: "anon", Sig: "ok"}, 0, p, w.s, w.s.token, sc))
	if x, ok := a.(*ua.ActivateSessionResponse); !ok || x.ServiceResult != ua.Good {
		return fmt.Sprintf("activation failed: %+v %v", a, other)
	} else {
		w.s.nonces = append(w.s.nonces, x.ServerNonce)
	}
	w.seq = 0
	return "ok"
}

func (w *cWorld) refused(p *Peer) string {
	synctest.Wait()
	msgs, closed := w.recv(p)
	defer p.close()
	for _, m := range msgs {
		if m.Msg != nil {
			return fmt.Sprintf("answered with %T", m.Msg)
		}
	}
	if !closed {
		time.Sleep(21 * time.Second)
		synctest.Wait()
		if _, closed = w.recv(p); !closed {
			return "still open"
		}
		return "closed late"
	}
	return "closed"
}

var cPerms = []ua.RolePermissionType{{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: ua.PermissionTypeBrowse | ua.PermissionTypeRead | ua.PermissionTypeWrite}}

func runChan(rec *recorder, raw json.RawMessage) {
	var c cCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	cf := c.Conf
	caps := ua.NewServerCapabilities()
	caps.MaxByteStringLength = 1 << 20
	e := newEnv(rec, server.WithAnonymousIdentity(true), server.WithTransportLimits(cf.SB, cf.M, cf.C), server.WithSecurityPolicyNone(cf.None), server.WithServerCapabilities(caps))
	v := e.variable("v", ua.NewDataValue(cPattern(0, 0), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDByteString, -1, 3, 0, cPerms)
	big := e.variable("big", ua.NewDataValue(cPattern(0, 0), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDByteString, -1, 3, 0, cPerms)
	e.serve()
	w := &cWorld{env: e, c: c}
	helper, res := e.connectSec(cf.Pol, "client1")
	if res != "Good" {
		panic("setup: " + res)
	}
	cr, ok := helper.call(&ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL, SessionName: "s", ClientDescription: ua.ApplicationDescription{ApplicationURI: "urn:verif:client1"},
		ClientCertificate: ua.ByteString(helper.cert), ClientNonce: ua.ByteString(nonce(32)), RequestedSessionTimeout: 3600000}).(*ua.CreateSessionResponse)
	if !ok || cr.ServiceResult != ua.Good {
		panic(fmt.Sprintf("setup: create session %+v", cr))
	}
	w.s = &mSess{cr.AuthenticationToken, cr.SessionID, []ua.ByteString{cr.ServerNonce}, cr.ServerEndpoints, ""}
	sc, _ := loadPair("server")
	if x, ok := helper.call(activation(sessStep{Tok: "anon", Sig: "ok"}, 0, helper, w.s, w.s.token, sc)).(*ua.ActivateSessionResponse); ok {
		w.s.nonces = append(w.s.nonces, x.ServerNonce)
	}
	now := int64(0)
	extra := int64(0)
	for i, st := range c.Steps {
		e.until(now*1000 + extra)
		w.notes = nil
		got := "ok"
		answered := func(ids ...uint32) string { // exactly the answers to these requests
			synctest.Wait()
			msgs, closed := w.recv(w.p)
			if closed {
				if len(msgs) > 0 {
					return fmt.Sprintf("answered with %T and closed", msgs[0].Msg)
				}
				return "closed"
			}
			for j, m := range msgs {
				if j >= len(ids) || m.ReqID != ids[j] {
					return fmt.Sprintf("unexpected %T", m.Msg)
				}
				if r := rxResult(m.Msg); r != "Good" {
					return r
				}
				if x, ok := m.Msg.(*ua.WriteResponse); ok && (len(x.Results) != 1 || x.Results[0] != ua.Good) {
					return fmt.Sprintf("write results %v", x.Results)
				}
			}
			if len(msgs) < len(ids) {
				return "no answer"
			}
			return "ok"
		}
		switch st.Op {
		case "setup":
		case "open":
			if st.Mut == "none" {
				got = w.open(st)
			} else {
				old := *w
				got = w.open(st)
				n := w.notes
				*w = old
				w.notes = n
			}
		case "discovery":
			p := e.dial()
			p.sendOpen(ua.SecurityTokenRequestTypeIssue, 3600000, 1)
			synctest.Wait()
			p.take()
			p.send(&ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL, SessionName: "s", ClientNonce: ua.ByteString(nonce(32)), RequestedSessionTimeout: 3600000}, 5)
			got = w.refused(p)
		case "write":
			got = w.write(st, i, answered)
		case "read":
			id := w.p.req()
			body := w.p.encodeBody(&ua.ReadRequest{RequestHeader: hdr(w.s.token, uint32(i), 0), TimestampsToReturn: ua.TimestampsToReturnNeither, NodesToRead: []ua.ReadValueID{{NodeID: ua.NewNodeIDString(e.ns, "v"), AttributeID: ua.AttributeIDValue}}})
			sp := w.chunks(body, 1, w.cur, id)[0]
			sp.seq = w.p.nextSeq()
			w.p.raw(w.p.buildChunk(sp))
			synctest.Wait()
			msgs, closed := w.recv(w.p)
			switch {
			case closed:
				got = "closed"
			case len(msgs) != 1 || msgs[0].ReqID != id:
				got = fmt.Sprintf("%d answers", len(msgs))
			default:
				got = rxResult(msgs[0].Msg)
				if r, ok := msgs[0].Msg.(*ua.ReadResponse); ok {
					got = "ok"
					if len(r.Results) != 1 {
						got = "no result"
					} else if a, b := cDecode(r.Results[0].Value); r.Results[0].Value != v.Value().Value {
						got = fmt.Sprintf("value %d/%d", a, b)
					}
					if r.RequestHandle != uint32(i) {
						w.note("request handle %d", r.RequestHandle)
					}
				}
			}
		case "pipe":
			k0, _ := cDecode(v.Value().Value)
			var all []byte
			var ids []uint32
			for j := 1; j <= st.N; j++ {
				id := w.p.req()
				ids = append(ids, id)
				sp := w.chunks(w.p.encodeBody(w.writeReq(k0+j, 10, i)), 1, w.cur, id)[0]
				sp.seq = w.p.nextSeq()
				all = append(all, w.p.buildChunk(sp)...)
			}
			w.put(w.p, all, st.Frag)
			got = answered(ids...)
		case "renew":
			got = w.renew(st)
		case "wait":
			now += st.D
			e.until(now*1000 + extra)
			msgs, closed := w.recv(w.p)
			if closed {
				got = "closed"
			}
			if len(msgs) > 0 {
				got = fmt.Sprintf("unexpected %T", msgs[0].Msg)
			}
		case "close":
			id := w.p.req()
			sp := w.chunks(w.p.encodeBody(&ua.CloseSecureChannelRequest{RequestHeader: hdr(nil, 0, 0)}), 1, w.cur, id)[0]
			sp.typ, sp.seq = "CLOF", w.p.nextSeq()
			w.p.raw(w.p.buildChunk(sp))
			got = answered(id)
		case "stall":
			now++
			got = w.stall(st, i, big, answered)
		}
		k, l := cDecode(v.Value().Value)
		ev := obj{"i": i, "got": got, "val": k, "len": l}
		if len(w.notes) > 0 {
			ev["notes"] = w.notes
		}
		rec.emit(ev)
	}
}

func (w *cWorld) write(st cStep, i int, answered func(...uint32) string) string {
	p := w.p
	id := p.req()
	tok := w.cur
	if st.Tok == "pend" {
		tok = w.pend
	}
	specs := w.chunks(p.encodeBody(w.writeReq(st.K, st.L, i)), st.N, tok, id)
	var all [][]byte
	at := st.At - 1
	sealed := false
	for j := range specs {
		s := &specs[j]
		mut := ""
		if j == at {
			mut = st.Mut
		}
		var ready []byte
		switch mut {
		case "badChannel":
			s.channel += 7
		case "badToken":
			s.token += 1000
		case "expiredPend":
			s.token, s.keys = w.pend, w.keysOf(w.pend)
		case "oldToken":
			s.token, s.keys = w.old, w.keysOf(w.old)
		case "reqMix":
			s.reqID += 3
		case "unsigned":
			s.noSig = true
		case "oldKeys":
			s.keys = w.keysOf(w.old)
		case "zeroKeys":
			s.keys = polDefs[p.policy].derive(nil, nil)
		case "serverKeys":
			s.keys = p.tokens[tok].server
		case "padHuge":
			s.pad = 255
		case "padBody":
			s.pad = len(s.body) + 10
		case "notBlock":
			s.extra = 5
		case "abort":
			s.typ = "MSGA"
			s.body = append(le32(uint32(ua.BadRequestCancelledByClient)), leStr(nil)...)
		case "badType":
			s.typ = "XYZF"
		case "tooLong":
			s.body = append(bytes.Clone(s.body), make([]byte, int(w.c.Conf.B))...)
		case "opnInMsg":
			s.typ = "MSGF"
			s.body = p.encodeBody(&ua.OpenSecureChannelRequest{RequestHeader: hdr(nil, 0, 0), RequestType: ua.SecurityTokenRequestTypeRenew, SecurityMode: p.mode, ClientNonce: ua.ByteString(nonce(polDefs[p.policy].nonce)), RequestedLifetime: 600000})
			sealed = true
		case "opnMid":
			req := &ua.OpenSecureChannelRequest{RequestHeader: hdr(nil, 0, 0), RequestType: ua.SecurityTokenRequestTypeRenew, SecurityMode: p.mode, ClientNonce: ua.ByteString(nonce(polDefs[p.policy].nonce)), RequestedLifetime: 600000}
			if j == 0 { // after the first chunk
				s.seq = p.nextSeq()
				all = append(all, p.buildChunk(*s))
			}
			all = append(all, p.buildOPN(p.encodeBody(req), p.req()))
			if j == 0 {
				continue
			}
		case "opnBody":
			ready = p.buildOPN(p.encodeBody(w.writeReq(st.K, st.L, i)), id)
			sealed = true
		case "opnNone":
			ready = p.buildOPNx(p.encodeBody(w.writeReq(st.K, st.L, i)), id, opnOpts{policy: polNone})
			sealed = true
		case "replay":
			all = append(all, w.last()...)
			sealed = true
		case "replayAll":
			for _, m := range w.sent {
				all = append(all, m...)
			}
			if len(w.sent) == 0 {
				all = append(all, w.last()...)
			}
			sealed = true
		case "replayOld":
			if len(w.before) > 0 {
				all = append(all, w.before[i%len(w.before)]...)
			} else {
				all = append(all, w.sent[0]...)
			}
			sealed = true
		case "reflect":
			if len(w.back) > 0 {
				ready = w.back[len(w.back)-1]
			} else {
				s.keys = p.tokens[tok].server
			}
			sealed = true
		case "short":
			ready = append(append([]byte("MSGF"), le32(20)...), append(append(le32(p.channelID), le32(tok)...), 0, 0, 0, 0)...)
			sealed = true
		case "shorter":
			ready = append(append([]byte("MSGF"), le32(12)...), le32(p.channelID)...)
			sealed = true
		case "lenZero":
			ready = append([]byte("MSGF"), le32(0)...)
			sealed = true
		case "lenHuge":
			ready = append([]byte("MSGF"), le32(0xffffffff)...)
			sealed = true
		}
		if sealed && ready == nil && mut != "reflect" && mut != "opnInMsg" {
			break
		}
		if ready == nil {
			s.seq = p.nextSeq()
			switch mut {
			case "seqSkip":
				s.seq++
			case "seqSame":
				s.seq--
			case "seqBack":
				s.seq -= 3
			case "seqZero":
				s.seq = 0
			}
			ready = p.buildChunk(*s)
			switch mut {
			case "flipBody":
				ready[16+(st.K*37)%(len(ready)-16)] ^= 1 << (i % 8)
			case "flipSig":
				ready[len(ready)-1] ^= 1
			case "flipHeader":
				ready[3] ^= 'C' ^ 'F'
			case "trunc":
				ready = ready[:len(ready)-16]
				binary.LittleEndian.PutUint32(ready[4:], uint32(len(ready)))
			}
		}
		all = append(all, ready)
		if sealed {
			break
		}
	}
	var flat []byte
	for _, x := range all {
		flat = append(flat, x...)
	}
	if st.Tok == "pend" {
		w.tokWant = w.pend
	}
	w.put(p, flat, st.Frag)
	got := answered(id)
	if st.Mut == "abort" {
		if got == "no answer" {
			got = "ok"
		} else if got == "ok" {
			got = "executed"
		}
		p.close()
		return got
	}
	if got == "ok" {
		w.sent = append(w.sent, all)
		if st.Tok == "pend" {
			w.old, w.cur, w.pend = w.cur, w.pend, 0
		}
	}
	return got
}

func (w *cWorld) last() [][]byte {
	if len(w.sent) > 0 {
		return w.sent[len(w.sent)-1]
	}
	return w.before[len(w.before)-1]
}

func (w *cWorld) renew(st cStep) string {
	p := w.p
	id := p.req()
	req := &ua.OpenSecureChannelRequest{RequestHeader: hdr(nil, id, 0), RequestType: ua.SecurityTokenRequestTypeRenew, SecurityMode: p.mode, RequestedLifetime: uint32(min(st.Life*1000, 4294967295))}
	nn := nonce(polDefs[p.policy].nonce)
	req.ClientNonce = ua.ByteString(nn)
	o := opnOpts{policy: p.policy, cert: p.cert, key: p.key}
	var ready []byte
	switch st.Mut {
	case "issue":
		req.RequestType = ua.SecurityTokenRequestTypeIssue
	case "otherMode":
		req.SecurityMode = ua.MessageSecurityModeNone
		if p.mode == modeNone {
			req.SecurityMode = ua.MessageSecurityModeSign
		}
	case "otherPolicy":
		o.policy = polB256S
		if p.policy == polB256S {
			o.policy = polA128
		}
		if o.key == nil {
			q := &Peer{}
			q.secure(o.policy, modeSignE, "client1")
			o.cert, o.key = q.cert, q.key
			p.remoteCert, p.remotePub = q.remoteCert, q.remotePub
		}
		req.ClientNonce = ua.ByteString(nonce(polDefs[o.policy].nonce))
	case "nonePolicy":
		o = opnOpts{policy: polNone}
	case "unknownPolicy":
		o = opnOpts{policy: "http://opcfoundation.org/UA/SecurityPolicy#Best", cert: p.cert}
	case "badChannel":
		x := p.channelID + 5
		o.channel = &x
	case "seqSkip":
		x := p.nextSeq() + 1
		o.seq = &x
	case "seqSame":
		x := p.seq
		o.seq = &x
	case "otherCert":
		o.cert, o.key = loadPair("client2")
	case "badSig":
		o.badSig = true
	case "replayRenew":
		ready = w.opns[len(w.opns)-1]
	case "flipCipher":
		ready = p.buildOPNx(p.encodeBody(req), id, o)
		ready[len(ready)-77] ^= 16
	}
	if ready == nil {
		ready = p.buildOPNx(p.encodeBody(req), id, o)
	}
	if st.Mut == "none" {
		p.lastCNonce = nn
	}
	p.raw(ready)
	synctest.Wait()
	msgs, closed := w.recv(p)
	if len(msgs) > 0 {
		r, ok := msgs[0].Msg.(*ua.OpenSecureChannelResponse)
		if !ok || msgs[0].ReqID != id || closed {
			return fmt.Sprintf("answered with %T", msgs[0].Msg)
		}
		if int64(r.SecurityToken.RevisedLifetime) != st.Wlife*1000 {
			w.note("lifetime %d, want %d", r.SecurityToken.RevisedLifetime, st.Wlife*1000)
		}
		if r.SecurityToken.ChannelID != p.channelID || r.SecurityToken.TokenID == w.cur || r.SecurityToken.TokenID == w.pend {
			w.note("token %+v", r.SecurityToken)
		}
		w.pend = r.SecurityToken.TokenID
		w.opns = append(w.opns, ready)
		return "ok"
	}
	if closed {
		return "closed"
	}
	return "no answer"
}

// stall makes the server switch tokens in the middle of a notification that the client reads slowly.
func (w *cWorld) stall(st cStep, i int, big *server.VariableNode, answered func(...uint32) string) string {
	p := w.p
	ask := func(m any) any {
		id := p.req()
		sp := w.chunks(p.encodeBody(m), 1, w.cur, id)[0]
		sp.seq = p.nextSeq()
		p.raw(p.buildChunk(sp))
		synctest.Wait()
		msgs, _ := w.recv(p)
		if len(msgs) != 1 {
			return nil
		}
		return msgs[0].Msg
	}
	big.SetValue(ua.NewDataValue(cPattern(st.K, 300000), 0, time.Now(), 0, time.Now(), 0))
	sub, ok := ask(&ua.CreateSubscriptionRequest{RequestHeader: hdr(w.s.token, 1, 0), RequestedPublishingInterval: 100, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 10, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse)
	if !ok {
		return "no subscription"
	}
	it, ok := ask(&ua.CreateMonitoredItemsRequest{RequestHeader: hdr(w.s.token, 1, 0), SubscriptionID: sub.SubscriptionID, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: big.NodeID(), AttributeID: ua.AttributeIDValue},
		MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 50, QueueSize: 1}}}}).(*ua.CreateMonitoredItemsResponse)
	if !ok || it.Results[0].StatusCode != ua.Good {
		return "no item"
	}
	pid := p.req()
	sp := w.chunks(p.encodeBody(&ua.PublishRequest{RequestHeader: hdr(w.s.token, 1, 0)}), 1, w.cur, pid)[0]
	sp.seq = p.nextSeq()
	gate := make(chan struct{})
	p.gate.Store(&gate)
	p.conn.rd.mu.Lock()
	p.conn.rd.limit = 1000
	p.conn.rd.mu.Unlock()
	p.raw(p.buildChunk(sp))
	time.Sleep(300 * time.Millisecond)
	synctest.Wait()
	id := p.req()
	sp = w.chunks(p.encodeBody(w.writeReq(st.K, 10, i)), 1, w.pend, id)[0]
	sp.seq = p.nextSeq()
	p.raw(p.buildChunk(sp))
	for n := 0; n < 3; n++ { // the server may wait for a lock here, so synctest.Wait could not return: give it real time
		syscall.Nanosleep(&syscall.Timespec{Nsec: 2e6}, nil)
	}
	p.gate.Store(nil)
	close(gate)
	synctest.Wait()
	p.conn.rd.mu.Lock()
	p.conn.rd.limit = 0
	p.conn.rd.broadcast()
	p.conn.rd.mu.Unlock()
	synctest.Wait()
	// the notification may use either token, but each chunk must be right
	msgs := p.take()
	pub, wr := false, false
	for _, m := range msgs {
		switch x := m.Msg.(type) {
		case *ua.PublishResponse:
			pub = len(x.NotificationMessage.NotificationData) == 1
		case *ua.WriteResponse:
			wr = m.ReqID == id && len(x.Results) == 1 && x.Results[0] == ua.Good
		default:
			w.note("%s %s", m.Kind, m.Err)
		}
		for _, q := range m.Seqs {
			if q != w.seq+1 {
				w.note("sequence number %d after %d", q, w.seq)
			}
			w.seq = q
		}
	}
	w.old, w.cur, w.pend = w.cur, w.pend, 0
	w.tokWant = w.cur
	if !pub || !wr {
		return fmt.Sprintf("notification %v, answer %v", pub, wr)
	}
	if _, ok := ask(&ua.DeleteSubscriptionsRequest{RequestHeader: hdr(w.s.token, 1, 0), SubscriptionIDs: []uint32{sub.SubscriptionID}}).(*ua.DeleteSubscriptionsResponse); !ok {
		return "subscription not deleted"
	}
	return "ok"
}

var _ = rsa.PublicKey{}
