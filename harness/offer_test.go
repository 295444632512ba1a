package harness

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing/synctest"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["offer"] = runOffer }

type ofStep struct {
	Op   string
	Conf struct {
		None  bool
		Users []string
		Urls  int
	}
	Policy, Mode, Tok, Svc string
	Profiles, Uris         []string
	Stolen                 bool
}

var ofPol = map[string]string{"None": polNone, "Basic128Rsa15": polB128, "Basic256": polB256, "Basic256Sha256": polB256S, "Aes128": polA128, "Aes256": polA256}
var ofMode = map[string]ua.MessageSecurityMode{"None": modeNone, "Sign": modeSign, "SignAndEncrypt": modeSignE}
var ofTransport = map[string]string{"tcp": "http://opcfoundation.org/UA-Profile/Transport/uatcp-uasc-uabinary", "https": "http://opcfoundation.org/UA-Profile/Transport/https-uabinary", "other": "urn:other"}

func ofName[V comparable](m map[string]V, v V) string {
	for k, x := range m {
		if x == v {
			return k
		}
	}
	return fmt.Sprintf("?%v", v)
}

func runOffer(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []ofStep }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	cf := c.Steps[0].Conf
	has := func(u string) bool {
		for _, x := range cf.Users {
			if x == u {
				return true
			}
		}
		return false
	}
	opts := []server.Option{server.WithSecurityPolicyNone(cf.None), server.WithAnonymousIdentity(has("Anonymous"))}
	if has("UserName") {
		opts = append(opts, server.WithAuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, app, url string) error { return nil }))
	}
	if has("Certificate") {
		opts = append(opts, server.WithAuthenticateX509IdentityFunc(func(id ua.X509Identity, app, url string) error { return nil }))
	}
	e := &env{urls: []string{endpointURL, "opc.tcp://also:4840"}[:cf.Urls]}
	e.init(rec, opts...)
	e.variable("u-alice", ua.NewDataValue("x", 0, e.t0, 0, e.t0, 0), ua.DataTypeIDString, -1, byte(ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite), 0, nil)
	e.serve()
	srvCert, _ := loadPair("server")
	open := func(pol, mode string) (*Peer, bool) {
		p := e.dial()
		p.secure(ofPol[pol], ofMode[mode], "client1")
		p.sendOpen(ua.SecurityTokenRequestTypeIssue, 3600000, 1)
		synctest.Wait()
		rx := p.take()
		return p, len(rx) == 1 && rx[0].Kind == "OPN"
	}
	endpoints := func(l []ua.EndpointDescription) []any {
		out := []any{}
		for _, x := range l {
			toks := []any{}
			ids := map[string]bool{}
			for _, t := range x.UserIdentityTokens {
				toks = append(toks, obj{"type": t.TokenType.String(), "policy": ofName(ofPol, t.SecurityPolicyURI)})
				ids[t.PolicyID] = true
			}
			out = append(out, obj{"policy": ofName(ofPol, x.SecurityPolicyURI), "mode": ofName(ofMode, x.SecurityMode), "level": x.SecurityLevel, "cert": string(x.ServerCertificate) == string(srvCert),
				"url": x.EndpointURL == endpointURL, "transport": ofName(ofTransport, x.TransportProfileURI), "app": x.Server.ApplicationURI, "tokens": toks, "ids": len(ids) == len(toks)})
		}
		return out
	}
	session := func(p *Peer) (*mSess, ua.NodeID, []any) {
		m := &ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), ClientDescription: ua.ApplicationDescription{ApplicationURI: "urn:verif:client1"}, EndpointURL: endpointURL, SessionName: "s", ClientNonce: ua.ByteString(nonce(32)), RequestedSessionTimeout: 3600000}
		if p.policy != polNone {
			m.ClientCertificate = ua.ByteString(p.cert)
		}
		r, _ := p.ask(m)
		x, ok := r.(*ua.CreateSessionResponse)
		if !ok || x.ServiceResult != ua.Good {
			return nil, nil, nil
		}
		return &mSess{x.AuthenticationToken, x.SessionID, []ua.ByteString{x.ServerNonce}, x.ServerEndpoints, ""}, x.AuthenticationToken, endpoints(x.ServerEndpoints)
	}
	// a session to be misused, if some user may enter
	var stolen ua.NodeID
	if len(cf.Users) > 0 {
		p, ok := open("Basic256Sha256", "SignAndEncrypt")
		if !ok {
			panic("setup: open")
		}
		s, tok, _ := session(p)
		if s == nil {
			panic("setup: create session")
		}
		t := map[string]string{"Anonymous": "anon", "UserName": "pwAlice", "Certificate": "x509"}[cf.Users[0]]
		a, _ := p.ask(activation(sessStep{Tok: t, Sig: "ok"}, 0, p, s, tok, srvCert))
		if x, ok := a.(*ua.ActivateSessionResponse); !ok || x.ServiceResult != ua.Good {
			panic(fmt.Sprintf("setup: activate %s: %+v", t, a))
		}
		stolen = tok
	}
	for i, st := range c.Steps {
		ev := obj{"i": i}
		switch st.Op {
		case "ask":
			p, ok := open(st.Policy, st.Mode)
			ev["open"] = ok
			if !ok {
				break
			}
			ps := []string{}
			for _, t := range st.Profiles {
				ps = append(ps, ofTransport[t])
			}
			a, other := p.ask(&ua.GetEndpointsRequest{RequestHeader: hdr(nil, 7, 0), EndpointURL: endpointURL, ProfileURIs: ps})
			if x, ok := a.(*ua.GetEndpointsResponse); ok && x.ServiceResult == ua.Good {
				ev["endpoints"] = endpoints(x.Endpoints)
			}
			us := []string{}
			for _, u := range st.Uris {
				us = append(us, map[string]string{"own": "urn:verif:server", "other": "urn:elsewhere"}[u])
			}
			a, o2 := p.ask(&ua.FindServersRequest{RequestHeader: hdr(nil, 8, 0), EndpointURL: endpointURL, ServerURIs: us})
			if x, ok := a.(*ua.FindServersResponse); ok && x.ServiceResult == ua.Good {
				l := []any{}
				for _, s := range x.Servers {
					l = append(l, obj{"app": s.ApplicationURI, "product": s.ProductURI, "urls": strings.Join(s.DiscoveryURLs, " ") == strings.Join(e.urls, " "), "type": s.ApplicationType.String()})
				}
				ev["servers"] = l
			}
			ev["other"] = append(other, o2...)
			p.close()
		case "enter":
			p, ok := open(st.Policy, st.Mode)
			ev["open"], ev["session"], ev["active"], ev["served"] = ok, false, false, false
			if ok {
				s, tok, eps := session(p)
				if s != nil {
					ev["session"], ev["endpoints"] = true, eps
					a, _ := p.ask(activation(sessStep{Tok: st.Tok, Sig: "ok"}, 0, p, s, tok, srvCert))
					x, ok := a.(*ua.ActivateSessionResponse)
					ev["active"] = ok && x.ServiceResult == ua.Good
					ev["result"] = rxResult(a)
					r, _ := p.ask(&ua.ReadRequest{RequestHeader: hdr(tok, 9, 0), NodesToRead: []ua.ReadValueID{{NodeID: ua.ObjectIDObjectsFolder, AttributeID: ua.AttributeIDBrowseName}}})
					y, ok := r.(*ua.ReadResponse)
					ev["served"] = ok && y.ServiceResult == ua.Good && len(y.Results) == 1
				}
			}
			p.close()
		case "intrude":
			p, ok := open("None", "None")
			ev["open"], ev["served"] = ok, false
			if ok {
				var tok ua.NodeID
				if st.Stolen {
					tok = stolen
				}
				var m any
				if st.Svc == "csession" {
					m = &ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL, SessionName: "s", ClientNonce: ua.ByteString(nonce(32)), RequestedSessionTimeout: 3600000}
				} else {
					m = e.sessRequest(st.Svc, hdr(tok, 9, 5000))
				}
				a, _ := p.ask(m)
				if a != nil {
					r, ok := a.(ua.ServiceResponse)
					ev["served"] = !ok || r.Header().ServiceResult == ua.Good
				}
				ev["result"] = rxResult(a)
			}
			p.close()
		}
		synctest.Wait()
		rec.emit(ev)
	}
	e.srv.Close()
}
