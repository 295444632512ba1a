package harness

import (
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

const endpointURL = "opc.tcp://localhost:4840"

var nsURI = "http://verif/ns"

// pkiDir holds the certificates of the harness.
func pkiDir() string {
	if d := os.Getenv("VERIF_PKI"); d != "" {
		return d
	}
	return "testdata/pki"
}

func loadPair(name string) (der []byte, key *rsa.PrivateKey) {
	b, err := os.ReadFile(filepath.Join(pkiDir(), name+".crt"))
	if err != nil {
		panic(err)
	}
	p, _ := pem.Decode(b)
	der = p.Bytes
	b, err = os.ReadFile(filepath.Join(pkiDir(), name+".key"))
	if err != nil {
		panic(err)
	}
	p, _ = pem.Decode(b)
	if k, err := x509.ParsePKCS1PrivateKey(p.Bytes); err == nil {
		return der, k
	}
	k, err := x509.ParsePKCS8PrivateKey(p.Bytes)
	if err != nil {
		panic(err)
	}
	return der, k.(*rsa.PrivateKey)
}

// recorder writes one JSON line per event.
type recorder struct {
	mu sync.Mutex
	f  *os.File
}

func (r *recorder) emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.f.Write(append(b, '\n'))
}

type obj = map[string]any

// env is one server with its in-memory listener.
type env struct {
	srv   *server.Server
	ln    *memListener
	t0    time.Time
	rec   *recorder
	sess  map[int]*sess
	ns    uint16
	known map[*Peer]bool
	// certificates are verified
	strict bool
	// DiscoveryURLs of the server
	urls []string
}

type sess struct {
	n     int
	p     *Peer
	token ua.NodeID
	id    ua.NodeID
	snon  ua.ByteString
}

func newEnv(rec *recorder, opts ...server.Option) *env {
	return (&env{}).init(rec, opts...)
}

func (e *env) init(rec *recorder, opts ...server.Option) *env {
	e.ln, e.rec, e.sess = newMemListener(), rec, map[int]*sess{}
	server.VerifListen = func(a, b string) (net.Listener, error) { return e.ln, nil }
	if e.urls == nil {
		e.urls = []string{endpointURL}
	}
	if !e.strict {
		opts = append([]server.Option{server.WithInsecureSkipVerify()}, opts...)
	}
	opts = append([]server.Option{server.WithSecurityPolicyNone(true)}, opts...)
	srv, err := server.New(ua.ApplicationDescription{ApplicationURI: "urn:verif:server", ProductURI: "urn:verif", ApplicationType: ua.ApplicationTypeServer, DiscoveryURLs: e.urls},
		filepath.Join(pkiDir(), "server.crt"), filepath.Join(pkiDir(), "server.key"), endpointURL, opts...)
	if err != nil {
		panic(err)
	}
	e.srv = srv
	e.ns = srv.NamespaceManager().Add(nsURI)
	return e
}

func (e *env) serve() {
	go e.srv.ListenAndServe()
	synctest.Wait()
	e.t0 = time.Now()
}

func (e *env) ms() int64 { return time.Since(e.t0).Milliseconds() }

// until sleeps until ms milliseconds after t0 and lets everything settle.
func (e *env) until(ms int64) {
	if d := time.Until(e.t0.Add(time.Duration(ms) * time.Millisecond)); d > 0 {
		time.Sleep(d)
	}
	synctest.Wait()
}

// connect opens a connection and a secure channel with policy None.
func (e *env) connect() *Peer {
	c, err := e.ln.Dial()
	if err != nil {
		panic(err)
	}
	p := newPeer(c)
	p.born = e.t0
	p.start()
	p.raw(p.hello(65536, 65536, 0, 0, endpointURL))
	synctest.Wait()
	p.sendOpen(ua.SecurityTokenRequestTypeIssue, 3600000, 1)
	synctest.Wait()
	rx := p.take()
	if len(rx) != 2 || rx[0].Kind != "ACK" || rx[1].Kind != "OPN" {
		panic(fmt.Sprintf("setup: connect got %+v", rx))
	}
	p.nextReq = 10
	return p
}

func (p *Peer) req() uint32 { p.nextReq++; return p.nextReq }

// call sends a request and returns the only message received by the time everything is idle.
func (p *Peer) call(msg any) any {
	id := p.req()
	p.send(msg, id)
	synctest.Wait()
	rx := p.take()
	for _, r := range rx {
		if r.Kind == "MSG" && r.ReqID == id {
			return r.Msg
		}
	}
	panic(fmt.Sprintf("setup: no response to %T: %+v", msg, rx))
}

func hdr(token ua.NodeID, handle, hint uint32) ua.RequestHeader {
	return ua.RequestHeader{AuthenticationToken: token, Timestamp: time.Now().UTC(), RequestHandle: handle, TimeoutHint: hint}
}

// session creates and activates an anonymous session on its own connection.
func (e *env) session(n int) *sess {
	p := e.connect()
	return e.sessionOn(n, p, 3600000)
}

func (e *env) sessionOn(n int, p *Peer, timeout float64) *sess {
	r, ok := p.call(&ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL, SessionName: fmt.Sprintf("s%d", n), ClientNonce: ua.ByteString(nonce(32)), RequestedSessionTimeout: timeout}).(*ua.CreateSessionResponse)
	if !ok || r.ServiceResult != ua.Good {
		panic(fmt.Sprintf("setup: create session: %+v", r))
	}
	a, ok := p.call(&ua.ActivateSessionRequest{RequestHeader: hdr(r.AuthenticationToken, 0, 0), UserIdentityToken: ua.AnonymousIdentityToken{PolicyID: tokenPolicy(r.ServerEndpoints, p, ua.UserTokenTypeAnonymous).PolicyID}}).(*ua.ActivateSessionResponse)
	if !ok || a.ServiceResult != ua.Good {
		panic(fmt.Sprintf("setup: activate session: %+v", a))
	}
	s := &sess{n: n, p: p, token: r.AuthenticationToken, id: r.SessionID, snon: a.ServerNonce}
	e.sess[n] = s
	return s
}

func code(c ua.StatusCode) string {
	if n, ok := statusNames[uint32(c)]; ok {
		return n
	}
	return fmt.Sprintf("0x%08X", uint32(c))
}

func codes(cs []ua.StatusCode) []string {
	r := []string{}
	for _, c := range cs {
		r = append(r, code(c))
	}
	return r
}

func statusByName(n string) ua.StatusCode {
	for c, s := range statusNames {
		if s == n {
			return ua.StatusCode(c)
		}
	}
	panic("unknown status " + n)
}

// variable adds a variable node below the Objects folder.
func (e *env) variable(name string, dv ua.DataValue, typ ua.NodeID, rank int32, access byte, minSampling float64, perms []ua.RolePermissionType) *server.VariableNode {
	n := server.NewVariableNode(e.srv, ua.NewNodeIDString(e.ns, name), ua.NewQualifiedName(e.ns, name), ua.NewLocalizedText(name, "en"), ua.NewLocalizedText("", ""), perms,
		[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(ua.VariableTypeIDBaseDataVariableType)},
			{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder)}},
		dv, typ, rank, nil, access, minSampling, false, nil)
	if err := e.srv.NamespaceManager().AddNode(n); err != nil {
		panic(err)
	}
	return n
}

type rxAt struct {
	s *sess
	r Rx
}

// collect returns everything received by the sessions, in order of time.
func (e *env) collect() []rxAt {
	var out []rxAt
	var ns []int
	for n := range e.sess {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		for _, r := range e.sess[n].p.take() {
			out = append(out, rxAt{e.sess[n], r})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].r.At < out[j].r.At })
	return out
}

func exit(n int) { syscall.Exit(n) }

// tokenPolicy returns the user token policy of the given type offered for the channel of p.
func tokenPolicy(eps []ua.EndpointDescription, p *Peer, typ ua.UserTokenType) ua.UserTokenPolicy {
	for _, ep := range eps {
		if ep.SecurityPolicyURI == p.policy && ep.SecurityMode == p.mode {
			for _, t := range ep.UserIdentityTokens {
				if t.TokenType == typ {
					return t
				}
			}
		}
	}
	return ua.UserTokenPolicy{}
}
