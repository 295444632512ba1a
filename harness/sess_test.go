package harness

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["sess"] = runSess }

type sessStep struct {
	Op, Pol, Cert, V, Tok, Sig, Svc string
	C, S                            int
	Tmo                             int64
	Pend                            bool
	T                               int64
}

type sessCase struct {
	Conf  struct{ Anon, Pw, Cert bool }
	Steps []sessStep
}

var longPw = strings.Repeat("0123456789abcdef", 4)

const polURI = "http://opcfoundation.org/UA/SecurityPolicy#"

func polOf(name string) (string, ua.MessageSecurityMode) {
	if name == "None" {
		return polNone, ua.MessageSecurityModeNone
	}
	mode := ua.MessageSecurityModeSign
	if strings.HasSuffix(name, "-E") {
		mode = ua.MessageSecurityModeSignAndEncrypt
	}
	return map[string]string{"Basic128Rsa15": polB128, "Basic256": polB256, "Basic256Sha256": polB256S, "Aes128": polA128, "Aes256": polA256}[name[:len(name)-2]], mode
}

// dial opens a connection and sends the hello message.
func (e *env) dial() *Peer {
	c, err := e.ln.Dial()
	if err != nil {
		panic(err)
	}
	p := newPeer(c)
	p.born = e.t0
	p.start()
	p.raw(p.hello(65536, 65536, 0, 0, endpointURL))
	synctest.Wait()
	if rx := p.take(); len(rx) != 1 || rx[0].Kind != "ACK" {
		panic(fmt.Sprintf("setup: hello got %+v", rx))
	}
	p.nextReq = 10
	return p
}

// secure sets the security of the channel to be opened.
func (p *Peer) secure(pol string, mode ua.MessageSecurityMode, cert string) {
	p.policy, p.mode = pol, mode
	if pol == polNone {
		return
	}
	p.cert, p.key = loadPair(cert)
	sc, _ := loadPair("server")
	p.remoteCert = sc
	x, _ := x509.ParseCertificate(sc)
	p.remotePub = x.PublicKey.(*rsa.PublicKey)
}

func (e *env) connectSec(polName, cert string) (*Peer, string) {
	p := e.dial()
	pol, mode := polOf(polName)
	p.secure(pol, mode, cert)
	p.sendOpen(ua.SecurityTokenRequestTypeIssue, 3600000, 1)
	synctest.Wait()
	rx := p.take()
	if len(rx) == 1 && rx[0].Kind == "OPN" {
		// a channel has to be used within 20 seconds
		if r, ok := p.call(&ua.GetEndpointsRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL}).(*ua.GetEndpointsResponse); !ok {
			return p, fmt.Sprintf("%+v", r)
		}
		return p, "Good"
	}
	return p, fmt.Sprintf("%+v", rx)
}

// ask sends a request and returns its answer and whatever else arrived.
func (p *Peer) ask(msg any) (any, []string) {
	id := p.req()
	p.send(msg, id)
	synctest.Wait()
	var ans any
	other := []string{}
	n := 0
	for _, r := range p.take() {
		if r.Kind == "MSG" && r.ReqID == id {
			n++
			ans = r.Msg
		} else {
			other = append(other, fmt.Sprintf("%s %d %T %s", r.Kind, r.ReqID, r.Msg, rxResult(r.Msg)))
		}
	}
	if n > 1 {
		other = append(other, fmt.Sprintf("%d answers", n))
	}
	return ans, other
}

func rxResult(m any) string {
	if m == nil {
		return "none"
	}
	if r, ok := m.(ua.ServiceResponse); ok {
		return code(r.Header().ServiceResult)
	}
	return fmt.Sprintf("%T", m)
}

type mSess struct {
	token  ua.NodeID
	id     ua.NodeID
	nonces []ua.ByteString
	eps    []ua.EndpointDescription
	uri    string
}

func userName(id any) string {
	switch u := id.(type) {
	case ua.AnonymousIdentity:
		return "anon"
	case ua.UserNameIdentity:
		return u.UserName
	case ua.X509Identity:
		d, _ := loadPair("user1")
		if string(u.Certificate) == string(d) {
			return "user1"
		}
		return "other"
	}
	return fmt.Sprintf("%T", id)
}

var sessUsers = []string{"anon", "alice", "long", "carol", "user1"}

func runSess(rec *recorder, raw json.RawMessage) {
	var c sessCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	var e *env
	role := func(u string) ua.NodeID { return ua.NewNodeIDString(1, "role-"+u) }
	opts := []server.Option{server.WithMaxSessionCount(4), server.WithAnonymousIdentity(c.Conf.Anon),
		server.WithGetRolesFunc(func(id any, app, url string) ([]ua.NodeID, error) { return []ua.NodeID{role(userName(id))}, nil }),
		server.WithRolePermissions(nil)}
	if c.Conf.Pw {
		opts = append(opts, server.WithAuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, app, url string) error {
			switch {
			case id.UserName == "boom":
				return errors.New("database unavailable")
			case id.UserName == "alice" && id.Password == "secret", id.UserName == "long" && id.Password == longPw,
				id.UserName == "carol" && id.Password == "carols" && app == "urn:verif:client1":
				return nil
			}
			return ua.BadUserAccessDenied
		}))
	}
	if c.Conf.Cert {
		u1, _ := loadPair("user1")
		opts = append(opts, server.WithAuthenticateX509IdentityFunc(func(id ua.X509Identity, app, url string) error {
			if string(id.Certificate) == string(u1) {
				return nil
			}
			return ua.BadUserAccessDenied
		}))
	}
	e = newEnv(rec, opts...)
	for _, u := range sessUsers {
		e.variable("u-"+u, ua.NewDataValue(u, 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDString, -1, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite, 0,
			[]ua.RolePermissionType{{RoleID: role(u), Permissions: ua.PermissionTypeBrowse | ua.PermissionTypeRead}})
	}
	e.serve()
	srvCert, _ := loadPair("server")
	peers := map[int]*Peer{}
	var ss []*mSess
	nonces := map[string]bool{}
	tokens := map[string]bool{}

	for i, st := range c.Steps {
		e.until(st.T)
		ev := obj{"i": i, "t": e.ms()}
		notes := []string{}
		note := func(f string, a ...any) { notes = append(notes, fmt.Sprintf(f, a...)) }
		fresh := func(n ua.ByteString) {
			if len(n) < 32 {
				note("server nonce of %d bytes", len(n))
			}
			if nonces[string(n)] {
				note("server nonce repeated")
			}
			nonces[string(n)] = true
		}
		p := peers[st.C]
		var s *mSess
		tok := ua.NodeID(ua.NewNodeIDOpaque(1, ua.ByteString(nonce(32))))
		if st.S > 0 {
			s = ss[st.S-1]
			tok = s.token
		}
		other := []string{}
		switch st.Op {
		case "open":
			pp, res := e.connectSec(st.Pol, st.Cert)
			peers[st.C] = pp
			ev["res"] = res
		case "drop":
			p.close()
			synctest.Wait()
			p.take()
			ev["res"] = "Good"
		case "create":
			uri := "urn:verif:none"
			if p.policy != polNone {
				uri = "urn:verif:" + c.Steps[openOf(c.Steps, st.C)].Cert
			}
			cert := p.cert
			cn := nonce(32)
			switch st.V {
			case "othercert":
				// in the name of another application, whose certificate is known
				if bytes.Equal(cert, must(loadPair("client1"))) {
					cert, uri = must(loadPair("client2")), "urn:verif:client2"
				} else if cert != nil {
					cert, uri = must(loadPair("client1")), "urn:verif:client1"
				}
			case "nocert":
				cert = nil
			case "wronguri":
				uri = "urn:verif:other"
			case "nouri":
				uri = ""
			case "shortnonce":
				cn = nonce(31)
			}
			tmo := float64(st.Tmo)
			switch st.Tmo {
			case -1:
				tmo = math.NaN()
			case -2:
				tmo = math.Inf(1)
			case -3:
				tmo = math.Inf(-1)
			}
			ans, o := p.ask(&ua.CreateSessionRequest{RequestHeader: hdr(nil, uint32(i), 0), EndpointURL: endpointURL, SessionName: "s", ClientNonce: ua.ByteString(cn), ClientCertificate: ua.ByteString(cert),
				ClientDescription: ua.ApplicationDescription{ApplicationURI: uri, ApplicationType: ua.ApplicationTypeClient}, RequestedSessionTimeout: tmo})
			other = o
			ev["res"] = rxResult(ans)
			if r, ok := ans.(*ua.CreateSessionResponse); ok && r.ServiceResult == ua.Good {
				ev["wtmo"] = r.RevisedSessionTimeout
				for _, id := range []ua.NodeID{r.SessionID, r.AuthenticationToken} {
					k := fmt.Sprint(id)
					if tokens[k] {
						note("session id or authentication token repeated")
					}
					tokens[k] = true
				}
				fresh(r.ServerNonce)
				if string(r.ServerCertificate) != string(srvCert) {
					note("not the server's certificate")
				}
				if p.policy != polNone {
					d := polDefs[p.policy]
					if r.ServerSignature.Algorithm != d.sigURI {
						note("signature algorithm %s", r.ServerSignature.Algorithm)
					}
					if err := d.rsaVerify(p.remotePub, []byte(r.ServerSignature.Signature), cert, cn); err != nil {
						note("server signature: %v", err)
					}
				}
				ss = append(ss, &mSess{r.AuthenticationToken, r.SessionID, []ua.ByteString{r.ServerNonce}, r.ServerEndpoints, uri})
			}
		case "activate":
			ans, o := p.ask(activation(st, i, p, s, tok, srvCert))
			other = o
			ev["res"] = rxResult(ans)
			if r, ok := ans.(*ua.ActivateSessionResponse); ok && r.ServiceResult == ua.Good {
				fresh(r.ServerNonce)
				if s != nil {
					s.nonces = append(s.nonces, r.ServerNonce)
				}
			}
		case "svc":
			m := e.sessRequest(st.Svc, hdr(tok, uint32(i), 0))
			ans, o := p.ask(m)
			other = o
			ev["res"] = rxResult(ans)
			switch r := ans.(type) {
			case *ua.CreateSubscriptionResponse:
				if r.ServiceResult == ua.Good {
					p.ask(&ua.DeleteSubscriptionsRequest{RequestHeader: hdr(tok, 0, 0), SubscriptionIDs: []uint32{r.SubscriptionID}})
				}
			case *ua.ReadResponse:
				if st.Svc == "whoami" {
					who := []string{}
					for _, v := range r.Results {
						if v.StatusCode == ua.Good {
							who = append(who, fmt.Sprint(v.Value))
						}
					}
					ev["who"] = who
				}
			}
		case "close":
			var pub uint32
			if st.Pend {
				p.ask(&ua.CreateSubscriptionRequest{RequestHeader: hdr(tok, 0, 0), RequestedPublishingInterval: 3600000, RequestedLifetimeCount: 30000, RequestedMaxKeepAliveCount: 10000})
				// the first keep alive
				ans, _ := p.ask(&ua.PublishRequest{RequestHeader: hdr(tok, 0, 0)})
				if ans != nil {
					note("publish answered at once: %s", rxResult(ans))
				}
				pub = p.nextReq
			}
			id := p.req()
			p.send(&ua.CloseSessionRequest{RequestHeader: hdr(tok, uint32(i), 0), DeleteSubscriptions: true}, id)
			synctest.Wait()
			ev["res"] = "none"
			pres := "none"
			for _, r := range p.take() {
				switch {
				case r.Kind == "MSG" && r.ReqID == id:
					ev["res"] = rxResult(r.Msg)
				case r.Kind == "MSG" && pub != 0 && r.ReqID == pub:
					pres = rxResult(r.Msg)
				default:
					other = append(other, fmt.Sprintf("%s %d %T", r.Kind, r.ReqID, r.Msg))
				}
			}
			if st.Pend && pres != "BadSessionClosed" {
				note("publish request waiting when the session is closed: answer %s", pres)
			}
		case "end":
			ev["res"] = "Good"
		}
		for n, q := range peers {
			for _, r := range q.take() {
				other = append(other, fmt.Sprintf("channel %d: %s %d %T", n, r.Kind, r.ReqID, r.Msg))
			}
		}
		if len(other) > 0 {
			ev["other"] = other
		}
		if len(notes) > 0 {
			ev["notes"] = notes
		}
		rec.emit(ev)
	}
}

func must(der []byte, _ *rsa.PrivateKey) []byte { return der }

func openOf(ss []sessStep, c int) int {
	for i, s := range ss {
		if s.Op == "open" && s.C == c {
			return i
		}
	}
	panic("no open")
}

// activation builds the request of an activate step.
func activation(st sessStep, i int, p *Peer, s *mSess, tok ua.NodeID, srvCert []byte) *ua.ActivateSessionRequest {
	if s == nil {
		s = &mSess{nonces: []ua.ByteString{ua.ByteString(nonce(32))}}
	}
	cur := []byte(s.nonces[len(s.nonces)-1])
	old := nonce(32)
	if len(s.nonces) > 1 {
		old = []byte(s.nonces[len(s.nonces)-2])
	}
	m := &ua.ActivateSessionRequest{RequestHeader: hdr(tok, uint32(i), 0)}
	if p.policy != polNone {
		d := polDefs[p.policy]
		m.ClientSignature.Algorithm = d.sigURI
		switch st.Sig {
		case "ok":
			m.ClientSignature.Signature = ua.ByteString(d.rsaSign(p.key, srvCert, cur))
		case "stale":
			m.ClientSignature.Signature = ua.ByteString(d.rsaSign(p.key, srvCert, old))
		case "garbage":
			m.ClientSignature.Signature = ua.ByteString(nonce(256))
		case "otherkey":
			_, k := loadPair("user2")
			m.ClientSignature.Signature = ua.ByteString(d.rsaSign(k, srvCert, cur))
		}
	}
	pol := func(t ua.UserTokenType) ua.UserTokenPolicy { return tokenPolicy(s.eps, p, t) }
	secPol := func(t ua.UserTokenPolicy) (string, polDef) {
		u := t.SecurityPolicyURI
		if u == "" {
			u = p.policy
		}
		if u == polNone || u == "" {
			u = polB256S
		}
		return u, polDefs[u]
	}
	pw, crt := pol(ua.UserTokenTypeUserName), pol(ua.UserTokenTypeCertificate)
	switch k := st.Tok; {
	case k == "nil":
	case strings.HasPrefix(k, "anon"):
		pid := map[string]string{"anon": pol(ua.UserTokenTypeAnonymous).PolicyID, "anonBadPid": "nosuch", "anonPwPid": pw.PolicyID, "anonCertPid": crt.PolicyID}[k]
		if pid == "" {
			pid = "none"
		}
		m.UserIdentityToken = ua.AnonymousIdentityToken{PolicyID: pid}
	case strings.HasPrefix(k, "issued"):
		pid := map[string]string{"issued": "nosuch", "issuedPwPid": pw.PolicyID, "issuedCertPid": crt.PolicyID}[k]
		if pid == "" {
			pid = "none"
		}
		m.UserIdentityToken = ua.IssuedIdentityToken{PolicyID: pid, TokenData: ua.ByteString("token")}
	case strings.HasPrefix(k, "pw"):
		user, pass := "alice", "secret"
		switch k {
		case "pwLong":
			user, pass = "long", longPw
		case "pwEmptyUser":
			user = ""
		case "pwCarol":
			user, pass = "carol", "carols"
		case "pwWrong":
			pass = "secreT"
		case "pwSwap":
			pass = longPw
		case "pwCase":
			user = "Alice"
		case "pwUnknown":
			user = "mallory"
		case "pwErr":
			user = "boom"
		case "pwTooLong":
			user, pass = "long", longPw+"0"
		}
		_, d := secPol(pw)
		n := cur
		if k == "pwStale" {
			n = old
		}
		plain := append(append(le32(uint32(len(pass)+len(n))), pass...), n...)
		switch k {
		case "pwShort":
			plain = append(le32(31), make([]byte, 31)...)
		case "pwNoNonce":
			plain = append(le32(38), append([]byte(pass), make([]byte, 32)...)...)
		case "pwTrunc":
			plain = append(le32(60), append([]byte(pass), n...)...)
		}
		sc, _ := x509.ParseCertificate(srvCert)
		data := d.rsaEncrypt(sc.PublicKey.(*rsa.PublicKey), plain)
		alg := d.encURI
		switch k {
		case "pwGarbage":
			data = nonce(256)
			if i%2 == 1 {
				data = nonce(100)
			}
		case "pwNone":
			data = nil
		case "pwBadAlg":
			alg = "http://www.w3.org/2001/04/xmlenc#sha256"
		case "pwPlain":
			data, alg = []byte(pass), ""
		}
		pid := pw.PolicyID
		if k == "pwBadPid" {
			pid = "nosuch"
		} else if pid == "" {
			pid = "none"
		}
		m.UserIdentityToken = ua.UserNameIdentityToken{PolicyID: pid, UserName: user, Password: ua.ByteString(data), EncryptionAlgorithm: alg}
	default:
		name := "user1"
		if k == "x509User2" {
			name = "user2"
		}
		der, key := loadPair(name)
		if k == "x509OtherKey" {
			_, key = loadPair("user2")
		}
		_, d := secPol(crt)
		n := cur
		if k == "x509Stale" {
			n = old
		}
		sig := d.rsaSign(key, srvCert, n)
		switch k {
		case "x509BadSig":
			sig[i%len(sig)] ^= 0x40
		case "x509NoSig":
			sig = nil
		case "x509Garbage":
			der = nonce(200)
		}
		pid := crt.PolicyID
		switch {
		case k == "x509BadPid":
			pid = "nosuch"
		case k == "x509PwPid":
			pid = pw.PolicyID
		}
		if pid == "" {
			pid = "none"
		}
		m.UserIdentityToken = ua.X509IdentityToken{PolicyID: pid, CertificateData: ua.ByteString(der)}
		m.UserTokenSignature = ua.SignatureData{Algorithm: d.sigURI, Signature: ua.ByteString(sig)}
	}
	return m
}

// sessRequest is a harmless request of the given service.
func (e *env) sessRequest(svc string, h ua.RequestHeader) any {
	obj := ua.ObjectIDObjectsFolder
	switch svc {
	case "cancel":
		return &ua.CancelRequest{RequestHeader: h, RequestHandle: 99999}
	case "browse":
		return &ua.BrowseRequest{RequestHeader: h, NodesToBrowse: []ua.BrowseDescription{{NodeID: obj, ResultMask: 63}}}
	case "browsenext":
		return &ua.BrowseNextRequest{RequestHeader: h, ContinuationPoints: []ua.ByteString{ua.ByteString("abcdefgh")}}
	case "translate":
		return &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: h, BrowsePaths: []ua.BrowsePath{{StartingNode: obj, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IncludeSubtypes: true, TargetName: ua.NewQualifiedName(0, "Server")}}}}}}
	case "register":
		return &ua.RegisterNodesRequest{RequestHeader: h, NodesToRegister: []ua.NodeID{obj}}
	case "unregister":
		return &ua.UnregisterNodesRequest{RequestHeader: h, NodesToUnregister: []ua.NodeID{obj}}
	case "read":
		return &ua.ReadRequest{RequestHeader: h, NodesToRead: []ua.ReadValueID{{NodeID: obj, AttributeID: ua.AttributeIDBrowseName}}}
	case "whoami":
		m := &ua.ReadRequest{RequestHeader: h}
		for _, u := range sessUsers {
			m.NodesToRead = append(m.NodesToRead, ua.ReadValueID{NodeID: ua.NewNodeIDString(e.ns, "u-"+u), AttributeID: ua.AttributeIDValue})
		}
		return m
	case "write":
		return &ua.WriteRequest{RequestHeader: h, NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDString(e.ns, "u-alice"), AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue("x", 0, time.Time{}, 0, time.Time{}, 0)}}}
	case "historyread":
		return &ua.HistoryReadRequest{RequestHeader: h, HistoryReadDetails: ua.ReadRawModifiedDetails{StartTime: time.Now(), EndTime: time.Now()}, NodesToRead: []ua.HistoryReadValueID{{NodeID: ua.NewNodeIDString(e.ns, "u-alice")}}}
	case "call":
		return &ua.CallRequest{RequestHeader: h, MethodsToCall: []ua.CallMethodRequest{{ObjectID: obj, MethodID: obj}}}
	case "citems":
		return &ua.CreateMonitoredItemsRequest{RequestHeader: h, SubscriptionID: 987654, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: obj, AttributeID: 13}}}}
	case "mitems":
		return &ua.ModifyMonitoredItemsRequest{RequestHeader: h, SubscriptionID: 987654, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: 1}}}
	case "setmode":
		return &ua.SetMonitoringModeRequest{RequestHeader: h, SubscriptionID: 987654, MonitoredItemIDs: []uint32{1}}
	case "settrig":
		return &ua.SetTriggeringRequest{RequestHeader: h, SubscriptionID: 987654, TriggeringItemID: 1, LinksToAdd: []uint32{1}}
	case "ditems":
		return &ua.DeleteMonitoredItemsRequest{RequestHeader: h, SubscriptionID: 987654, MonitoredItemIDs: []uint32{1}}
	case "msub":
		return &ua.ModifySubscriptionRequest{RequestHeader: h, SubscriptionID: 987654, RequestedPublishingInterval: 100, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 10}
	case "setpub":
		return &ua.SetPublishingModeRequest{RequestHeader: h, PublishingEnabled: true, SubscriptionIDs: []uint32{987654}}
	case "dsubs":
		return &ua.DeleteSubscriptionsRequest{RequestHeader: h, SubscriptionIDs: []uint32{987654}}
	case "republish":
		return &ua.RepublishRequest{RequestHeader: h, SubscriptionID: 987654, RetransmitSequenceNumber: 1}
	case "publish":
		return &ua.PublishRequest{RequestHeader: h}
	case "csub":
		return &ua.CreateSubscriptionRequest{RequestHeader: h, RequestedPublishingInterval: 60000, RequestedLifetimeCount: 30, RequestedMaxKeepAliveCount: 10}
	}
	panic("unknown service " + svc)
}
