package harness

import (
	"bytes"
	"context"
	"crypto/rsa"
	"crypto/x509"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["client"] = runClient }

type kStep struct {
	Op, Mut, How, Order, Want string
	N, At, K, Frag, Len, Conn int
	Hint, Ctx                 uint32
	D                         int64
	Renew                     bool
	Life                      uint32 // of the next token
	T                         int64
	// connecting
	Offer                []string
	Level                map[string]int
	Askp, Askm, User, Ep string
	Toks                 map[string]string
	Cert, Strange        bool
	Pw, Nonce            int
	Done                 []struct{ C int }
}
type kCase struct {
	Conf struct {
		Pol  string
		Hint uint32
		Buf  uint32
	}
	Steps []kStep
}

// kReq is a request held by the server.
type kReq struct {
	p      *Peer
	id     uint32
	handle uint32
	raw    [][]byte
}

type kCall struct {
	cancel context.CancelFunc
	len    int // of the value answered
	reqLen int
}

const kMaxMsg = 100000

type kWorld struct {
	mu     sync.Mutex
	rec    *recorder
	t0     time.Time
	c      kCase
	cli    *client.Client
	p      *Peer // the server's end of the client's channel
	dialed []*Peer
	mut    string
	life   uint32
	conn   int
	nconn  int
	notes  []string
	reqs   map[int][]kReq
	calls  map[int]*kCall
	done   map[int]string
	renews int
	nextID uint32
	toks   uint32
	cert   []byte
	key    *rsa.PrivateKey
	st     *kStep // connecting
	mode   string // endpoint used
	tok    string // token presented
	sess   ua.ByteString
	stage  string
	err    error
	lastSq map[*Peer]uint32
	clo    map[*Peer]bool
	eof    map[*Peer]bool
	cliCrt []byte
	more   []client.Option
	strict bool // certificates are verified
}

func (w *kWorld) note(f string, a ...any) {
	w.mu.Lock()
	w.notes = append(w.notes, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

func (w *kWorld) dial(network, addr string, timeout time.Duration) (net.Conn, error) {
	w.nconn++
	if w.mut == "refuse" && w.nconn == w.conn {
		return nil, errors.New("connection refused")
	}
	a, b := newMemPair(fmt.Sprintf("c%d", w.nconn))
	p := newPeer(b)
	p.isServer = true
	p.cert, p.key = w.cert, w.key
	n := w.nconn
	p.onRx = func(r Rx) { w.rx(p, n, r) }
	p.keepRaw = true
	p.keepSeen = w.st != nil
	w.mu.Lock()
	w.dialed = append(w.dialed, p)
	w.mu.Unlock()
	p.start()
	return a, nil
}

func (w *kWorld) put(p *Peer, b []byte, frag int) {
	if frag == 0 {
		p.raw(b)
		return
	}
	for n := 0; len(b) > 0; n++ {
		k := min(frag, len(b))
		if n > 300 {
			k = len(b)
		}
		p.raw(b[:k])
		b = b[k:]
		if n < 20 {
			time.Sleep(0)
		}
	}
}

func (w *kWorld) reply(p *Peer, r Rx, m ua.ServiceResponse, handle uint32) {
	m.Header().RequestHandle = handle
	m.Header().Timestamp = time.Now()
	for _, c := range p.buildMSG(p.encodeBody(m), r.ReqID, msgOpts{}) {
		w.put(p, c, w.frag())
	}
}

func (w *kWorld) frag() int {
	if w.mut == "fragments" {
		return 1
	}
	return 0
}

// rx plays the server.
func (w *kWorld) rx(p *Peer, n int, r Rx) {
	mut := ""
	if w.mut != "none" && n == w.conn {
		mut = w.mut
	}
	for _, q := range r.Seqs {
		w.mu.Lock()
		l, ok := w.lastSq[p]
		w.lastSq[p] = q
		w.mu.Unlock()
		if ok && q != l+1 {
			w.note("sequence number %d after %d", q, l)
		}
	}
	if r.Kind == "MSG" && uint32(r.MaxLen) > min(w.c.Conf.Buf, 65535) {
		w.note("chunk of %d bytes, limit %d", r.MaxLen, w.c.Conf.Buf)
	}
	if r.Kind == "MSG" && r.BodyN > kMaxMsg {
		w.note("message of %d bytes, limit %d", r.BodyN, kMaxMsg)
	}
	switch r.Kind {
	case "EOF":
		w.mu.Lock()
		w.eof[p] = true
		w.mu.Unlock()
	case "CLO":
		w.mu.Lock()
		w.clo[p] = true
		w.mu.Unlock()
		p.close()
	case "BAD":
		w.note("the server received something wrong: %s", r.Err)
	case "HEL":
		w.stage = fmt.Sprintf("hello%d", n)
		if len(r.Raw[0]) < 28 {
			w.note("short hello")
			return
		}
		h := r.Raw[0]
		p.sendBuf = int(min(65536, binary.LittleEndian.Uint32(h[12:])))
		buf, maxc := w.c.Conf.Buf, uint32(12)
		switch mut {
		case "silentHello", "cancelHello":
			return
		case "closeHello":
			p.close()
			return
		case "junkHello":
			p.raw([]byte("HTTP/1.1 400 Bad Request\r\n\r\n and so on and so on and so on"))
			return
		case "errHello":
			p.raw(append(append([]byte("ERRF"), le32(16)...), append(le32(uint32(ua.BadTCPServerTooBusy)), leStr(nil)...)...))
			return
		case "ackZero":
			p.raw(p.ackFrame(0, 0, 0, 0))
			return
		case "ackSmall":
			p.raw(p.ackFrame(100, 100, 0, 0))
			return
		case "ackShort":
			p.raw(append([]byte("ACKF"), 8, 0, 0, 0))
			return
		case "ackHuge":
			p.raw(p.ackFrame(1<<30, 1<<30, kMaxMsg, maxc))
			return
		}
		w.put(p, p.ackFrame(buf, min(buf, binary.LittleEndian.Uint32(h[12:])), kMaxMsg, maxc), w.frag())
	case "OPN":
		w.opn(p, n, r, mut)
	case "MSG":
		for _, t := range r.Tokens {
			if t < p.sendToken {
				w.note("message under token %d after %d", t, p.sendToken)
			}
			p.sendToken = t
		}
		w.msg(p, n, r, mut)
	}
}

func (w *kWorld) opn(p *Peer, n int, r Rx, mut string) {
	m, ok := r.Msg.(*ua.OpenSecureChannelRequest)
	if !ok {
		w.note("OPN with %T", r.Msg)
		return
	}
	w.stage = fmt.Sprintf("open%d", n)
	d := polDefs[p.policy]
	if m.RequestType == ua.SecurityTokenRequestTypeIssue {
		p.mode = m.SecurityMode
		w.nextID++
		p.channelID = w.nextID
		if n > 1 && w.st != nil {
			w.mode = polName(p.policy, m.SecurityMode)
			if p.policy != polNone && !bytes.Equal(p.remoteCert, w.cliCrt) {
				w.note("channel opened with another certificate")
			}
		}
	} else {
		w.renews++
		if m.SecurityMode != p.mode {
			w.note("renewal with mode %v", m.SecurityMode)
		}
	}
	if len(m.ClientNonce) != d.nonce {
		w.note("client nonce of %d bytes, want %d", len(m.ClientNonce), d.nonce)
	}
	w.toks++
	sn := nonce(d.nonce)
	res := &ua.OpenSecureChannelResponse{ResponseHeader: ua.ResponseHeader{Timestamp: time.Now(), RequestHandle: m.RequestHandle},
		SecurityToken: ua.ChannelSecurityToken{ChannelID: p.channelID, TokenID: w.toks, CreatedAt: time.Now(), RevisedLifetime: w.life}, ServerNonce: ua.ByteString(sn)}
	cn := []byte(m.ClientNonce)
	set := func() {
		p.tokens[w.toks] = tokenKeys{client: d.derive(sn, cn), server: d.derive(cn, sn)}
		if m.RequestType == ua.SecurityTokenRequestTypeIssue {
			p.sendToken = w.toks
		}
	}
	body := p.encodeBody(res)
	o := opnOpts{policy: p.policy, cert: p.cert, key: p.key}
	if p.policy == polNone {
		o.cert, o.key = nil, nil
	}
	switch mut {
	case "silentOpen", "cancelOpen":
		return
	case "closeOpen":
		p.close()
		return
	case "opnWrongBody":
		body = p.encodeBody(&ua.ReadResponse{ResponseHeader: res.ResponseHeader})
	case "opnFault":
		body = p.encodeBody(&ua.ServiceFault{ResponseHeader: ua.ResponseHeader{RequestHandle: m.RequestHandle, ServiceResult: ua.BadSecurityModeRejected}})
	case "opnShort":
		body = body[:6]
	case "opnNotFinal":
		o.typ = "OPNC"
	case "opnBadSig":
		o.badSig = true
	case "opnOtherCert":
		c, k := loadPair("client2")
		o.cert, o.key = c, k
	case "opnNone":
		o.policy, o.cert, o.key = polNone, nil, nil
	case "opnSigOnly":
		o.sigOnly = true
	case "opnPadding":
		o.pad = 255
	case "msgFirst", "msgFirst2": // a response that is not to an OpenSecureChannel request, before the channel is open
		k := p.tokens[0]
		if p.mode != modeNone {
			k = tokenKeys{client: d.derive(nil, nil), server: d.derive(nil, nil)}
		}
		sp := chunkSpec{typ: "MSGF", seq: 1, reqID: r.ReqID, body: body, pad: -1, keys: k.server}
		if mut == "msgFirst2" {
			sp.token = 7
		}
		p.raw(p.buildChunk(sp))
		return
	}
	b := p.buildOPNx(body, r.ReqID, o)
	switch mut {
	case "opnHuge":
		binary.LittleEndian.PutUint32(b[4:], 1<<30)
	case "opnFlip":
		b[len(b)-40] ^= 1
	}
	set()
	w.put(p, b, w.frag())
}

func polName(uri string, m ua.MessageSecurityMode) string {
	for n, u := range map[string]string{"Basic128Rsa15": polB128, "Basic256": polB256, "Basic256Sha256": polB256S, "Aes128": polA128, "Aes256": polA256} {
		if u == uri {
			switch m {
			case ua.MessageSecurityModeSign:
				return n + "-S"
			case ua.MessageSecurityModeSignAndEncrypt:
				return n + "-E"
			}
		}
	}
	if uri == polNone && m == ua.MessageSecurityModeNone {
		return "None"
	}
	return fmt.Sprintf("%s/%v", uri, m)
}

func tokURI(n string) string {
	switch n {
	case "":
		return ""
	case "None":
		return polNone
	}
	u, _ := polOf(n + "-S")
	return u
}

func (w *kWorld) endpoints() (out []ua.EndpointDescription) {
	mk := func(pol string, level int) ua.EndpointDescription {
		uri, mode := polOf(pol)
		ep := ua.EndpointDescription{EndpointURL: endpointURL, Server: ua.ApplicationDescription{ApplicationURI: "urn:verif:server", ApplicationType: ua.ApplicationTypeServer, DiscoveryURLs: []string{endpointURL}},
			ServerCertificate: ua.ByteString(w.cert), SecurityMode: mode, SecurityPolicyURI: uri, TransportProfileURI: ua.TransportProfileURIUaTcpTransport, SecurityLevel: byte(level)}
		if w.st == nil {
			ep.UserIdentityTokens = []ua.UserTokenPolicy{{PolicyID: "anon", TokenType: ua.UserTokenTypeAnonymous}}
			return ep
		}
		for _, t := range []struct {
			n string
			t ua.UserTokenType
		}{{"issued", ua.UserTokenTypeIssuedToken}, {"cert", ua.UserTokenTypeCertificate}, {"user", ua.UserTokenTypeUserName}, {"anon", ua.UserTokenTypeAnonymous}} {
			if v := w.st.Toks[t.n]; v != "absent" {
				ep.UserIdentityTokens = append(ep.UserIdentityTokens, ua.UserTokenPolicy{PolicyID: "pid-" + t.n + "-" + pol, TokenType: t.t, SecurityPolicyURI: tokURI(v)})
			}
		}
		return ep
	}
	if w.st == nil {
		return []ua.EndpointDescription{mk(w.c.Conf.Pol, 1)}
	}
	if w.st.Strange {
		e := mk("Basic256-E", 255)
		e.SecurityPolicyURI = "http://example.org/policy#Unknown"
		out = append(out, e)
	}
	for _, o := range w.st.Offer {
		out = append(out, mk(o, w.st.Level[o]))
	}
	return out
}

func (w *kWorld) msg(p *Peer, n int, r Rx, mut string) {
	q, ok := r.Msg.(ua.ServiceRequest)
	if !ok {
		w.note("server received %T", r.Msg)
		return
	}
	h := q.Header().RequestHandle
	switch m := r.Msg.(type) {
	case *ua.GetEndpointsRequest:
		w.reply(p, r, &ua.GetEndpointsResponse{Endpoints: w.endpoints()}, h)
	case *ua.CreateSessionRequest:
		w.stage = "session"
		w.p = p
		switch mut {
		case "silentSession", "cancelSession":
			return
		case "closeSession":
			p.close()
			return
		case "sessFault":
			w.reply(p, r, &ua.ServiceFault{ResponseHeader: ua.ResponseHeader{ServiceResult: ua.BadTooManySessions}}, h)
			return
		case "sessWrongType":
			w.reply(p, r, &ua.ActivateSessionResponse{}, h)
			return
		}
		nl := 32
		if w.st != nil {
			nl = w.st.Nonce
		}
		w.sess = ua.ByteString(nonce(nl))
		res := &ua.CreateSessionResponse{SessionID: ua.NewNodeIDNumeric(1, 77), AuthenticationToken: ua.NewNodeIDOpaque(1, "secret"), RevisedSessionTimeout: 120000, ServerNonce: w.sess,
			ServerCertificate: ua.ByteString(w.cert), ServerEndpoints: w.endpoints(), MaxRequestMessageSize: kMaxMsg}
		key, over := w.key, []byte(m.ClientNonce)
		sm := "none"
		if w.st != nil && p.policy != polNone {
			sm = w.st.Mut
		}
		switch sm {
		case "otherSig":
			_, key = loadPair("client2")
		case "oldSig":
			over = nonce(32)
		case "badCert":
			c, _ := loadPair("client2")
			res.ServerCertificate = ua.ByteString(c)
		case "noCert":
			res.ServerCertificate = ""
		}
		if p.policy != polNone {
			d := polDefs[p.policy]
			sig := d.rsaSign(key, []byte(m.ClientCertificate), over)
			switch sm {
			case "badSig":
				sig[9] ^= 8
			case "noSig":
				sig = nil
			}
			res.ServerSignature = ua.SignatureData{Signature: ua.ByteString(sig), Algorithm: d.sigURI}
		}
		w.reply(p, r, res, h)
	case *ua.ActivateSessionRequest:
		w.stage = "activate"
		switch mut {
		case "silentActivate":
			return
		case "closeActivate":
			p.close()
			return
		case "actFault":
			w.reply(p, r, &ua.ServiceFault{ResponseHeader: ua.ResponseHeader{ServiceResult: ua.BadIdentityTokenRejected}}, h)
			return
		case "actWrongType":
			w.reply(p, r, &ua.CreateSessionResponse{}, h)
			return
		}
		if w.st != nil {
			w.tok = w.checkUser(p, m)
		}
		w.reply(p, r, &ua.ActivateSessionResponse{ServerNonce: ua.ByteString(nonce(32))}, h)
	case *ua.CloseSessionRequest:
		w.reply(p, r, &ua.CloseSessionResponse{}, h)
	case *ua.ReadRequest:
		id := ""
		if len(m.NodesToRead) > 0 {
			if x, ok := m.NodesToRead[0].NodeID.(ua.NodeIDString); ok {
				id = x.ID
			}
		}
		if !strings.HasPrefix(id, "k=") {
			if mut == "silentRead" {
				return
			}
			w.reply(p, r, &ua.ReadResponse{Results: []ua.DataValue{ua.NewDataValue([]string{"http://opcfoundation.org/UA/", "urn:x"}, 0, time.Now(), 0, time.Now(), 0), ua.NewDataValue([]string{"urn:verif:server"}, 0, time.Now(), 0, time.Now(), 0)}}, h)
			return
		}
		var k int
		fmt.Sscanf(id, "k=%d;", &k)
		w.mu.Lock()
		c := w.calls[k]
		w.mu.Unlock()
		if c == nil || len(id) != c.reqLen || strings.Trim(id[strings.Index(id, ";"):], ";x") != "" {
			w.note("request %d arrived altered", k)
		}
		if m.AuthenticationToken != ua.NodeID(ua.NewNodeIDOpaque(1, "secret")) {
			w.note("request without the session's token")
		}
		if m.RequestHandle != r.ReqID {
			w.note("request id %d, handle %d", r.ReqID, m.RequestHandle)
		}
		w.mu.Lock()
		w.reqs[k] = append(w.reqs[k], kReq{p: p, id: r.ReqID, handle: h, raw: r.Raw})
		w.mu.Unlock()
	default:
		w.note("server received %T", r.Msg)
	}
}

// checkUser judges the identity presented to the server.
func (w *kWorld) checkUser(p *Peer, m *ua.ActivateSessionRequest) string {
	d := polDefs[p.policy]
	if p.policy != polNone {
		x, _ := x509.ParseCertificate(w.cliCrt)
		if err := d.rsaVerify(x.PublicKey.(*rsa.PublicKey), []byte(m.ClientSignature.Signature), w.cert, []byte(w.sess)); err != nil {
			w.note("client signature: %v", err)
		}
		if m.ClientSignature.Algorithm != d.sigURI {
			w.note("client signature algorithm %s", m.ClientSignature.Algorithm)
		}
	}
	pid := ""
	var kind string
	secret := func(data ua.ByteString, alg string, want []byte) string {
		if alg == "" {
			if string(data) == string(want) {
				return "None"
			}
			return "plain but wrong"
		}
		for _, n := range []string{"Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128", "Aes256"} {
			eff := w.st.Toks[w.st.User]
			if eff == "" {
				eff = strings.TrimSuffix(strings.TrimSuffix(w.mode, "-S"), "-E")
			}
			if n != eff {
				continue
			}
			td := polDefs[tokURI(n)]
			if alg != td.encURI {
				return "algorithm " + alg
			}
			b, err := td.rsaDecrypt(w.key, []byte(data))
			if err != nil || len(b) < 4 {
				return fmt.Sprintf("undecryptable %v", err)
			}
			l := int(binary.LittleEndian.Uint32(b))
			full := append(bytes.Clone(want), []byte(w.sess)...)
			if l != len(full) || len(b) < 4+l || !bytes.Equal(b[4:4+l], full) {
				return "decrypts to something else"
			}
			return n
		}
		return "encrypted"
	}
	res := ""
	switch t := m.UserIdentityToken.(type) {
	case ua.AnonymousIdentityToken:
		pid, kind = t.PolicyID, "anon"
	case ua.UserNameIdentityToken:
		pid, kind = t.PolicyID, "user"
		if t.UserName != "joe" {
			w.note("user name %q", t.UserName)
		}
		res = secret(t.Password, t.EncryptionAlgorithm, w.password())
	case ua.IssuedIdentityToken:
		pid, kind = t.PolicyID, "issued"
		res = secret(t.TokenData, t.EncryptionAlgorithm, w.password())
	case ua.X509IdentityToken:
		pid, kind = t.PolicyID, "cert"
		uc, _ := loadPair("user1")
		if string(t.CertificateData) != string(uc) {
			w.note("another user certificate")
		}
		x, _ := x509.ParseCertificate(uc)
		eff := w.st.Toks["cert"]
		if eff == "" {
			eff = strings.TrimSuffix(strings.TrimSuffix(w.mode, "-S"), "-E")
		}
		if eff == "None" {
			res = "None"
		} else if td := polDefs[tokURI(eff)]; td.rsaVerify(x.PublicKey.(*rsa.PublicKey), []byte(m.UserTokenSignature.Signature), w.cert, []byte(w.sess)) != nil || m.UserTokenSignature.Algorithm != td.sigURI {
			res = "bad user signature"
		} else {
			res = eff
		}
	default:
		w.note("identity token %T", t)
	}
	if kind != w.st.User || pid != "pid-"+w.st.User+"-"+w.mode {
		w.note("identity %s by policy %s", kind, pid)
	}
	return res
}

func (w *kWorld) password() []byte {
	b := []byte{}
	for i := 0; i < w.st.Pw; i++ {
		b = append(b, byte('A'+(i*7+i/26)%26))
	}
	return b
}

func (w *kWorld) options() []client.Option {
	cc, ck := loadPair("client1")
	w.cliCrt = cc
	opts := append([]client.Option{}, w.more...)
	if !w.strict {
		opts = append(opts, client.WithInsecureSkipVerify())
	}
	opts = append(opts, client.WithTimeoutHint(w.c.Conf.Hint), client.WithConnectTimeout(5000), client.WithTransportLimits(w.c.Conf.Buf, 200000, 40))
	if w.st == nil {
		if w.c.Conf.Pol != "None" {
			opts = append(opts, client.WithClientCertificate(cc, ck))
		}
		return opts
	}
	if w.st.Cert {
		opts = append(opts, client.WithClientCertificate(cc, ck))
	}
	if w.st.Askp != "" || w.st.Askm != "" {
		opts = append(opts, client.WithSecurityPolicyURI(tokURI(w.st.Askp), map[string]ua.MessageSecurityMode{"": 0, "N": ua.MessageSecurityModeNone, "S": ua.MessageSecurityModeSign, "E": ua.MessageSecurityModeSignAndEncrypt}[w.st.Askm]))
	}
	switch w.st.User {
	case "user":
		opts = append(opts, client.WithUserNameIdentity("joe", string(w.password())))
	case "issued":
		opts = append(opts, client.WithIssuedIdentity(w.password()))
	case "cert":
		uc, uk := loadPair("user1")
		opts = append(opts, client.WithX509Identity(uc, uk))
	}
	return opts
}

// connect runs Dial; limit says by when (ms) it has to return.
func (w *kWorld) connect(limit int64) string {
	w.nconn, w.stage, w.mode, w.tok = 0, "", "none", "none"
	w.mu.Lock()
	w.dialed = nil
	w.mu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	start := time.Now()
	var took time.Duration
	var cli *client.Client
	var err error
	fin := make(chan struct{})
	go func() {
		cli, err = client.Dial(ctx, endpointURL, w.options()...)
		w.err = err
		took = time.Since(start)
		close(fin)
	}()
	if strings.HasPrefix(w.mut, "cancel") {
		time.Sleep(time.Second)
		cancel()
		limit = 1500
	}
	select {
	case <-fin:
	case <-time.After(time.Duration(limit)*time.Millisecond - time.Since(start)):
		synctest.Wait()
		select {
		case <-fin:
		default:
			for _, p := range w.dialed { // let it go, to end the test
				p.close()
			}
			return "connecting does not return"
		}
	}
	synctest.Wait()
	if took > time.Duration(limit)*time.Millisecond {
		return "connecting returned late"
	}
	if err != nil {
		for i, p := range w.dialed {
			if !w.eof[p] {
				w.note("connection %d is left open", i+1)
				p.close()
			}
		}
		return "error"
	}
	w.cli = cli
	return "ok"
}

func kNode(k, n int) string { return fmt.Sprintf("k=%d;", k) + strings.Repeat("x", n) }

func (w *kWorld) call(k int, st kStep, ctx context.Context) {
	id := kNode(k, st.Len)
	cli, cl := w.cli, w.calls[k]
	go func() {
		res, err := cli.Read(ctx, &ua.ReadRequest{RequestHeader: ua.RequestHeader{TimeoutHint: st.Hint}, NodesToRead: []ua.ReadValueID{{NodeID: ua.NewNodeIDString(1, id), AttributeID: ua.AttributeIDValue}}})
		got := "?"
		if err != nil {
			got = "error"
			if c, ok := err.(ua.StatusCode); ok && c == ua.BadTooManyOperations {
				got = "BadTooManyOperations"
			}
		} else if len(res.Results) == 1 {
			kk, l := cDecode(res.Results[0].Value)
			if kk == k && l == cl.len {
				got = "value"
			} else {
				got = fmt.Sprintf("value of call %d", kk)
			}
		}
		w.mu.Lock()
		w.done[k] = got
		w.mu.Unlock()
	}()
}

func (w *kWorld) value(k int) *ua.ReadResponse {
	return &ua.ReadResponse{ResponseHeader: ua.ResponseHeader{Timestamp: time.Now()}, Results: []ua.DataValue{ua.NewDataValue(cPattern(k, w.calls[k].len), 0, time.Now(), 0, time.Now(), 0)}}
}

func (w *kWorld) specs(p *Peer, body []byte, n int, id uint32) []chunkSpec {
	var out []chunkSpec
	for i := 0; i < n; i++ {
		lo, hi := len(body)*i/n, len(body)*(i+1)/n
		t := "MSGC"
		if i == n-1 {
			t = "MSGF"
		}
		out = append(out, chunkSpec{typ: t, channel: p.channelID, token: p.sendToken, keys: p.sendKeys(p.tokens[p.sendToken]), reqID: id, body: body[lo:hi], pad: -1})
	}
	return out
}

func (w *kWorld) respond(k int, m ua.ServiceResponse, n, frag int) {
	r := w.reqs[k][0]
	m.Header().RequestHandle = r.handle
	var all []byte
	for _, s := range w.specs(r.p, r.p.encodeBody(m), n, r.id) {
		s.seq = r.p.nextSeq()
		all = append(all, r.p.buildChunk(s)...)
	}
	w.put(r.p, all, frag)
}

func runClient(rec *recorder, raw json.RawMessage) {
	var c kCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	w := &kWorld{rec: rec, t0: time.Now(), c: c, reqs: map[int][]kReq{}, calls: map[int]*kCall{}, done: map[int]string{}, lastSq: map[*Peer]uint32{}, clo: map[*Peer]bool{}, eof: map[*Peer]bool{}, nextID: 40, toks: 100}
	w.cert, w.key = loadPair("server")
	client.VerifDialTimeout = w.dial
	ncalls := 0
	shift := int64(0)
	sleepTo := func(t int64) {
		if d := time.Until(w.t0.Add(time.Duration(t+shift) * time.Millisecond)); d > 0 {
			time.Sleep(d)
		}
		synctest.Wait()
	}
	for i := range c.Steps {
		st := c.Steps[i]
		w.mu.Lock()
		w.notes = nil
		w.renews = 0
		if w.life = st.Life; w.life == 0 {
			w.life = 100000
		}
		w.done = map[int]string{}
		w.mu.Unlock()
		ev := obj{"i": i, "got": "ok"}
		switch st.Op {
		case "dial":
			w.mut, w.conn = st.Mut, st.Conn
			if st.Conn == 0 {
				w.conn = 2
			}
			ev["got"] = w.connect(38000)
			if st.Want == "ok" {
				w.mut = "none"
			}
		case "connect":
			w.mut, w.conn = "none", 0
			w.st = &st
			ev["got"] = w.connect(900)
			ev["err"] = fmt.Sprint(w.err)
			ev["ep"], ev["tok"] = w.mode, w.tok
			if pw := w.password(); len(pw) >= 8 && w.tok != "None" {
				for _, p := range w.dialed {
					if bytes.Contains(p.seen, pw[:8]) {
						w.note("the secret was sent in clear")
					}
				}
			}
			if ev["got"] == "ok" {
				ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
				if err := w.cli.Close(ctx); err != nil {
					w.note("close: %v", err)
				}
				cancel()
				synctest.Wait()
				for n, p := range w.dialed {
					if !w.eof[p] {
						w.note("connection %d is left open after close", n+1)
						p.close()
					}
				}
			}
		case "call":
			base := ncalls
			for j := 1; j <= st.N; j++ {
				k := base + j
				ctx, cancel := context.WithCancel(context.Background())
				if st.Ctx > 0 {
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(st.Ctx)*time.Millisecond)
				}
				w.mu.Lock()
				w.calls[k] = &kCall{cancel: cancel, len: 10, reqLen: len(kNode(k, st.Len))}
				w.mu.Unlock()
				w.call(k, st, ctx)
			}
			ncalls += st.N
			synctest.Wait()
			for k := base + 1; k <= ncalls; k++ {
				w.mu.Lock()
				n := len(w.reqs[k])
				w.mu.Unlock()
				if wantN := map[bool]int{true: 1, false: 0}[st.Want == "sent"]; n != wantN {
					w.note("request of call %d arrived %d times, want %d", k, n, wantN)
				}
			}
			if st.Renew != (w.renews > 0) || (st.N == 1 && w.renews > 1) {
				w.note("%d renewals", w.renews)
			}
		case "answer":
			w.calls[st.K].len = st.Len
			var m ua.ServiceResponse = w.value(st.K)
			switch st.How {
			case "fault":
				m = &ua.ServiceFault{ResponseHeader: ua.ResponseHeader{ServiceResult: ua.BadTooManyOperations}}
			case "badResult":
				m.Header().ServiceResult = ua.BadTooManyOperations
			case "wrongType":
				m = &ua.WriteResponse{Results: []ua.StatusCode{0}}
			case "emptyFault":
				m = &ua.ServiceFault{}
			}
			w.respond(st.K, m, st.N, st.Frag)
		case "answerAll":
			var ks []int
			for k := range w.calls {
				if c.waiting(i, k) {
					ks = append(ks, k)
				}
			}
			sort.Ints(ks)
			switch st.Order {
			case "lifo":
				sort.Sort(sort.Reverse(sort.IntSlice(ks)))
			case "mixed":
				sort.Slice(ks, func(a, b int) bool { return ks[a]*7919%101 < ks[b]*7919%101 })
			}
			var all []byte
			var p *Peer
			for _, k := range ks {
				r := w.reqs[k][0]
				p = r.p
				m := w.value(k)
				m.RequestHandle = r.handle
				s := w.specs(p, p.encodeBody(m), 1, r.id)[0]
				s.seq = p.nextSeq()
				all = append(all, p.buildChunk(s)...)
			}
			w.put(p, all, st.Frag)
		case "ignored":
			if st.K > 0 && w.reqs[st.K][0].p == w.p {
				w.respond(st.K, w.value(st.K), 1, 0)
			} else {
				m := &ua.ReadResponse{ResponseHeader: ua.ResponseHeader{RequestHandle: 999999}}
				s := w.specs(w.p, w.p.encodeBody(m), 1, 999999)[0]
				s.seq = w.p.nextSeq()
				w.p.raw(w.p.buildChunk(s))
			}
		case "cancel":
			w.calls[st.K].cancel()
		case "wait":
			sleepTo(st.T)
		case "drop":
			if st.Mut == "errMessage" {
				w.p.raw(append(append([]byte("ERRF"), le32(16)...), append(le32(uint32(ua.BadTCPInternalError)), leStr(nil)...)...))
			} else {
				w.p.close()
			}
		case "close":
			ctx, cancel := context.WithTimeout(context.Background(), 1000*time.Millisecond)
			fin := make(chan error, 1)
			cli := w.cli
			go func() { fin <- cli.Close(ctx) }()
			synctest.Wait()
			select {
			case err := <-fin:
				if err != nil {
					w.note("close: %v", err)
				}
			default:
				w.note("close does not return")
			}
			cancel()
			if !w.eof[w.p] {
				w.note("the connection is left open")
			}
		case "stall":
			ncalls++
			st.Len = 90000
			w.calls[ncalls] = &kCall{cancel: func() {}, len: 10, reqLen: len(kNode(ncalls, st.Len))}
			rd := w.p.conn.rd
			rd.mu.Lock()
			rd.limit, rd.frozen = 1000, true
			rd.mu.Unlock()
			w.call(ncalls, st, context.Background())
			sleepTo(st.T)
			rd.mu.Lock()
			rd.limit, rd.frozen = 0, false
			rd.broadcast()
			rd.mu.Unlock()
		case "badAnswer":
			w.badAnswer(st)
		}
		synctest.Wait()
		if st.Op == "drop" || st.Op == "badAnswer" || st.Op == "stall" {
			w.p.close()
			synctest.Wait()
		}
		if st.Op != "wait" {
			sleepTo(st.T)
		}
		w.mu.Lock()
		done := []obj{}
		for k := 1; k <= ncalls; k++ {
			if r, ok := w.done[k]; ok {
				done = append(done, obj{"c": k, "res": r})
			}
		}
		ev["done"] = done
		if len(w.notes) > 0 {
			ev["notes"] = w.notes[:min(5, len(w.notes))]
		}
		w.mu.Unlock()
		rec.emit(ev)
	}
	for _, c := range w.calls {
		c.cancel()
	}
	if w.p != nil {
		w.p.close()
	}
	synctest.Wait()
	time.Sleep(time.Minute)
}

// waiting tells whether call k has not returned before step i.
func (c kCase) waiting(i, k int) bool {
	for _, d := range c.Steps[i].Done {
		if d.C == k {
			return true
		}
	}
	return false
}

// badAnswer sends an answer that is not right; what follows it on the wire must have no effect either.
func (w *kWorld) badAnswer(st kStep) {
	r := w.reqs[st.K][0]
	p := r.p
	m := w.value(st.K)
	m.RequestHandle = r.handle
	body := p.encodeBody(m)
	switch st.Mut {
	case "bodyShort":
		body = body[:len(body)-7]
	case "bodyJunk":
		body = append([]byte{1, 0}, bytes.Repeat([]byte{0xff}, 60)...)
	case "unknownType":
		body[2], body[3] = 1, 0
	case "tooBig":
		w.calls[st.K].len = 250000
		m = w.value(st.K)
		m.RequestHandle = r.handle
		for _, b := range p.buildMSG(p.encodeBody(m), r.id, msgOpts{}) {
			p.raw(b)
		}
		return
	case "tooMany":
		w.calls[st.K].len = 500
		m = w.value(st.K)
		m.RequestHandle = r.handle
		for _, b := range p.buildMSG(p.encodeBody(m), r.id, msgOpts{chunk: 10}) {
			p.raw(b)
		}
		return
	}
	specs := w.specs(p, body, st.N, r.id)
	at := st.At - 1
	var out [][]byte
	for j := range specs {
		s := &specs[j]
		s.seq = p.nextSeq()
		mut := ""
		if j == at {
			mut = st.Mut
		}
		post := func(b []byte) []byte { return b }
		switch mut {
		case "badChannel":
			s.channel += 3
		case "badToken":
			s.token += 1000
		case "seqSkip":
			s.seq = p.nextSeq()
		case "seqSame":
			s.seq--
			p.seq--
		case "seqBack":
			s.seq -= 2
		case "reqMix":
			s.reqID += 5
		case "unsigned":
			s.noSig = true
		case "zeroKeys":
			s.keys = polDefs[p.policy].derive(nil, nil)
		case "clientKeys":
			s.keys = p.tokens[s.token].client
		case "reflect":
			out = append(out, r.raw...)
		case "padHuge":
			s.pad = 255
		case "padBody":
			s.pad = len(s.body) + 10
		case "notBlock":
			s.extra = 5
		case "badType":
			s.typ = "XYZF"
		case "tooLong":
			s.body = append(bytes.Clone(s.body), make([]byte, w.c.Conf.Buf)...)
		case "opnMid", "opnNone", "opnBody":
			o := opnOpts{policy: p.policy, cert: p.cert, key: p.key}
			if mut == "opnNone" || p.policy == polNone {
				o = opnOpts{policy: polNone}
			}
			b := s.body
			if mut == "opnBody" {
				b = body
			}
			p.seq--
			out = append(out, p.buildOPNx(b, r.id, o))
			continue
		case "flipBody":
			post = func(b []byte) []byte { b[24+len(s.body)/2] ^= 1; return b }
		case "flipSig":
			post = func(b []byte) []byte { b[len(b)-3] ^= 1; return b }
		case "flipHeader":
			post = func(b []byte) []byte { b[3] ^= 'C' ^ 'F'; return b }
		case "trunc":
			post = func(b []byte) []byte {
				b = b[:len(b)-16]
				binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
				return b
			}
		case "short":
			post = func(b []byte) []byte { b = b[:20]; binary.LittleEndian.PutUint32(b[4:], 20); return b }
		case "shorter":
			post = func(b []byte) []byte { b = b[:8]; binary.LittleEndian.PutUint32(b[4:], 8); return b }
		case "lenZero":
			post = func(b []byte) []byte { binary.LittleEndian.PutUint32(b[4:], 0); return b }
		case "lenHuge":
			post = func(b []byte) []byte { binary.LittleEndian.PutUint32(b[4:], 0x7fffffff); return b }
		case "ack":
			post = func(b []byte) []byte { return p.ackFrame(8192, 8192, 0, 0) }
		}
		out = append(out, post(p.buildChunk(*s)))
	}
	if st.Mut == "swap" {
		out[0], out[1] = out[1], out[0]
		// without the chunk types giving it away
		if len(out) == 2 {
			a, b := specs[0], specs[1]
			a.body, b.body = b.body, a.body
			a.seq, b.seq = b.seq, a.seq
			out = [][]byte{p.buildChunk(a), p.buildChunk(b)}
		}
	}
	for _, b := range out {
		p.raw(b)
	}
}
