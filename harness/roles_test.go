package harness

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["roles"] = runRoles }

type rlRule struct {
	Role string
	Ids  []struct {
		Type, Val string
		Upper     bool
	}
	Apps, Eps   []string
	AppsX, EpsX bool
}
type rlStep struct {
	Op, Id, App, Ep string
	Rules           []rlRule
	Dflt            bool
}

var rlDefault = map[string]ua.NodeID{"Anonymous": ua.ObjectIDWellKnownRoleAnonymous, "AuthenticatedUser": ua.ObjectIDWellKnownRoleAuthenticatedUser, "Observer": ua.ObjectIDWellKnownRoleObserver,
	"Operator": ua.ObjectIDWellKnownRoleOperator, "Engineer": ua.ObjectIDWellKnownRoleEngineer, "Supervisor": ua.ObjectIDWellKnownRoleSupervisor,
	"ConfigureAdmin": ua.ObjectIDWellKnownRoleConfigureAdmin, "SecurityAdmin": ua.ObjectIDWellKnownRoleSecurityAdmin}

func rlApp(a string) string {
	if a == "" {
		return ""
	}
	return "urn:verif:" + a
}

func rlEp(e string) string {
	return map[string]string{"here": endpointURL, "there": "opc.tcp://elsewhere:4840"}[e]
}

func rlCert(id string) []byte {
	d, _ := loadPair(map[string]string{"x1": "user1", "x2": "user2"}[id])
	return d
}

func rlRules(rs []rlRule) (out []server.IdentityMappingRule) {
	for _, r := range rs {
		m := server.IdentityMappingRule{NodeID: aRole(r.Role), ApplicationsExclude: r.AppsX, EndpointsExclude: r.EpsX}
		for _, c := range r.Ids {
			v := c.Val
			t := map[string]ua.IdentityCriteriaType{"Anonymous": ua.IdentityCriteriaTypeAnonymous, "AuthenticatedUser": ua.IdentityCriteriaTypeAuthenticatedUser, "UserName": ua.IdentityCriteriaTypeUserName,
				"Thumbprint": ua.IdentityCriteriaTypeThumbprint, "Role": ua.IdentityCriteriaTypeRole, "GroupID": ua.IdentityCriteriaTypeGroupID}[c.Type]
			if c.Type == "Thumbprint" && strings.HasPrefix(v, "x") {
				v = fmt.Sprintf("%x", sha1.Sum(rlCert(v)))
				if c.Upper {
					v = strings.ToUpper(v)
				}
			}
			m.Identities = append(m.Identities, ua.IdentityMappingRuleType{CriteriaType: t, Criteria: v})
		}
		for _, a := range r.Apps {
			m.Applications = append(m.Applications, rlApp(a))
		}
		for _, e := range r.Eps {
			m.Endpoints = append(m.Endpoints, struct {
				EndpointUrl         string
				SecurityMode        string
				SecurityPolicyURI   string
				TransportProfileUri string
			}{EndpointUrl: rlEp(e)})
		}
		out = append(out, m)
	}
	return
}

func rlIdentity(id string) any {
	switch id {
	case "anon":
		return ua.AnonymousIdentity{}
	case "issued":
		return ua.IssuedIdentity{TokenData: "data"}
	case "x1", "x2":
		return ua.X509Identity{Certificate: ua.ByteString(rlCert(id))}
	}
	return ua.UserNameIdentity{UserName: id, Password: "secret"}
}

// rlServer tells which roles a user of a server has, seen from what he may read, and what he may do to a node without permissions of its own.
func rlServer(rec *recorder, st rlStep, rules []rlRule) (roles, may []string, notes []string) {
	opts := []server.Option{server.WithAnonymousIdentity(true),
		server.WithAuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, app, url string) error { return nil }),
		server.WithAuthenticateX509IdentityFunc(func(id ua.X509Identity, app, url string) error { return nil })}
	names := map[string]ua.NodeID{"A": aRole("A"), "B": aRole("B"), "C": aRole("C"), "D": aRole("D")}
	if st.Dflt {
		names = rlDefault
	} else {
		opts = append(opts, server.WithRolesProvider(server.NewRulesBasedRolesProvider(rlRules(rules))))
	}
	e := newEnv(rec, opts...)
	dv := ua.NewDataValue(int32(1), 0, time.Now(), 0, time.Now(), 0)
	rw := byte(ua.AccessLevelsCurrentRead | ua.AccessLevelsCurrentWrite)
	e.variable("free", dv, ua.DataTypeIDInt32, -1, rw, 0, nil)
	order := []string{}
	for n, id := range names {
		order = append(order, n)
		e.variable("v"+n, dv, ua.DataTypeIDInt32, -1, rw, 0, []ua.RolePermissionType{{RoleID: id, Permissions: ua.PermissionTypeBrowse | ua.PermissionTypeRead}})
	}
	sort.Strings(order)
	m := server.NewMethodNode(e.srv, ua.NewNodeIDString(e.ns, "m"), ua.NewQualifiedName(e.ns, "m"), ua.NewLocalizedText("m", ""), ua.LocalizedText{}, nil,
		[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder)}}, true)
	m.SetCallMethodHandler(func(*server.Session, ua.CallMethodRequest) ua.CallMethodResult { return ua.CallMethodResult{} })
	if err := e.srv.NamespaceManager().AddNode(m); err != nil {
		panic(err)
	}
	e.serve()
	p, res := e.connectSec("Basic256Sha256-S", "client1")
	if res != "Good" {
		panic("setup: " + res)
	}
	cn := nonce(32)
	r := p.call(&ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), ClientDescription: ua.ApplicationDescription{ApplicationURI: "urn:verif:client1"}, EndpointURL: endpointURL, SessionName: "s", ClientNonce: ua.ByteString(cn), ClientCertificate: ua.ByteString(p.cert), RequestedSessionTimeout: 3600000}).(*ua.CreateSessionResponse)
	srvCert, _ := loadPair("server")
	tok := map[string]string{"anon": "anon", "alice": "pwAlice", "carol": "pwCarol", "x1": "x509", "x2": "x509User2"}[st.Id]
	a := p.call(activation(sessStep{Tok: tok, Sig: "ok"}, 0, p, &mSess{r.AuthenticationToken, r.SessionID, []ua.ByteString{r.ServerNonce}, r.ServerEndpoints, ""}, r.AuthenticationToken, srvCert))
	if x, ok := a.(*ua.ActivateSessionResponse); !ok || x.ServiceResult != ua.Good {
		panic(fmt.Sprintf("setup: activate: %+v", a))
	}
	read := &ua.ReadRequest{RequestHeader: hdr(r.AuthenticationToken, 1, 0)}
	for _, n := range append([]string{"free"}, order...) {
		if n != "free" {
			n = "v" + n
		}
		read.NodesToRead = append(read.NodesToRead, ua.ReadValueID{NodeID: ua.NewNodeIDString(e.ns, n), AttributeID: ua.AttributeIDValue})
	}
	if x, ok := p.call(read).(*ua.ReadResponse); ok && len(x.Results) == len(order)+1 {
		for i, n := range order {
			if x.Results[i+1].StatusCode == ua.Good {
				roles = append(roles, n)
			}
		}
		if x.Results[0].StatusCode == ua.Good {
			may = append(may, "read")
		}
	}
	if x, ok := p.call(&ua.WriteRequest{RequestHeader: hdr(r.AuthenticationToken, 2, 0), NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDString(e.ns, "free"), AttributeID: ua.AttributeIDValue, Value: dv}}}).(*ua.WriteResponse); ok && len(x.Results) == 1 && x.Results[0] == ua.Good {
		may = append(may, "write")
	}
	if x, ok := p.call(&ua.CallRequest{RequestHeader: hdr(r.AuthenticationToken, 3, 0), MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDObjectsFolder, MethodID: ua.NewNodeIDString(e.ns, "m")}}}).(*ua.CallResponse); ok && len(x.Results) == 1 && x.Results[0].StatusCode == ua.Good {
		may = append(may, "call")
	}
	p.close()
	e.srv.Close()
	synctest.Wait()
	return
}

func runRoles(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []rlStep }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	var rules []rlRule
	var prov server.RolesProvider
	for i, st := range c.Steps {
		ev := obj{"i": i}
		switch st.Op {
		case "rules":
			rules = st.Rules
			prov = server.NewRulesBasedRolesProvider(rlRules(rules))
		case "ask":
			got := map[string]bool{}
			rs, err := prov.GetRoles(rlIdentity(st.Id), rlApp(st.App), rlEp(st.Ep))
			for _, r := range rs {
				for _, n := range []string{"A", "B", "C", "D"} {
					if r == aRole(n) {
						got[n] = true
					}
				}
			}
			l := []string{}
			for n := range got {
				l = append(l, n)
			}
			sort.Strings(l)
			ev["got"] = l
			if err != nil {
				ev["err"] = err.Error()
			}
			ev["none"] = err == ua.BadUserAccessDenied
		case "server":
			roles, may, _ := rlServer(rec, st, rules)
			ev["got"], ev["may"] = append([]string{}, roles...), append([]string{}, may...)
		}
		rec.emit(ev)
	}
}
