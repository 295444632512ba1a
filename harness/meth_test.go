package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["meth"] = runMeth }

type mOp struct {
	Obj, Meth, St string
	A, D, N       int
}
type mCall struct {
	U    string
	Ops  []mOp
	Want struct {
		Fault string
		Res   []struct {
			Run   int
			Codes []string
		}
	}
}
type mPerm struct {
	Own          bool
	Browse, Call []string
}
type mStep struct {
	Op    string
	M, N  string
	H     int
	Calls []mCall
	Conf  struct {
		Roles   map[string][]string
		Perm    map[string]mPerm
		Default mPerm
		Exec    map[string]bool
		Workers int
	}
}

func mPerms(p mPerm) []ua.RolePermissionType {
	m := map[string]ua.PermissionType{}
	for _, r := range p.Browse {
		m[r] |= ua.PermissionTypeBrowse
	}
	for _, r := range p.Call {
		m[r] |= ua.PermissionTypeCall
	}
	out := []ua.RolePermissionType{}
	for _, r := range []string{"r1", "r2"} {
		// other permissions say nothing about these
		out = append(out, ua.RolePermissionType{RoleID: aRole(r), Permissions: m[r] | ua.PermissionTypeRead | ua.PermissionTypeWrite})
	}
	return out
}

type mWorld struct {
	e    *env
	mu   sync.Mutex
	runs []string
	conf mStep
	ids  map[string]ua.NodeID
	vals map[string]server.Node
	sid  map[string]ua.NodeID
}

// runKey describes one run of a handler.
func runKey(u, obj, meth string, h, a, n int) string {
	return fmt.Sprintf("%s %s.%s handler %d (%d, %d more)", u, obj, meth, h, a, n)
}

func mUser(id any) string {
	if userName(id) == "alice" {
		return "u2"
	}
	return "u1"
}

func (w *mWorld) handler(h int) func(*server.Session, ua.CallMethodRequest) ua.CallMethodResult {
	return func(s *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		u := mUser(s.UserIdentity())
		name := func(id ua.NodeID) string {
			for n, x := range w.ids {
				if x == id {
					return n
				}
			}
			return fmt.Sprint(id)
		}
		a, d, st := int(r.InputArguments[0].(int32)), int(r.InputArguments[1].(int32)), r.InputArguments[2].(string)
		w.mu.Lock()
		w.runs = append(w.runs, runKey(u, name(r.ObjectID), name(r.MethodID), h, a, len(r.InputArguments)-3))
		w.mu.Unlock()
		time.Sleep(time.Duration(d) * time.Millisecond)
		return ua.CallMethodResult{StatusCode: statusByName(st), OutputArguments: mOut(u, h, a, len(r.InputArguments)-3), InputArgumentResults: mArgs(st)}
	}
}

func mOut(u string, h, a, n int) []ua.Variant {
	out := []ua.Variant{int32(h*100 + a), u}
	for i := 0; i < n; i++ {
		out = append(out, []string{"x", fmt.Sprint(i)})
	}
	return out
}

func mArgs(st string) []ua.StatusCode {
	if st == "BadInvalidArgument" {
		return []ua.StatusCode{ua.Good, ua.BadTypeMismatch, ua.BadOutOfRange}
	}
	return nil
}

func (w *mWorld) add(n string) {
	srv, ns := w.e.srv, w.e.ns
	c := w.conf.Conf
	id, qn, lt, none := w.ids[n], ua.NewQualifiedName(ns, n), ua.NewLocalizedText(n, "en"), ua.LocalizedText{}
	var perms []ua.RolePermissionType
	if p := c.Perm[n]; p.Own {
		perms = mPerms(p)
	}
	under := []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder)}}
	sub := func(t ua.NodeID) []ua.Reference {
		return []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasSubtype, IsInverse: true, TargetID: ua.NewExpandedNodeID(t)}}
	}
	var v server.Node
	switch n {
	case "o1", "o2":
		refs := append(under, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(w.ids["ot"])})
		for _, m := range []string{"m1", "m2", "m3", "m4"} {
			refs = append(refs, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, TargetID: ua.NewExpandedNodeID(w.ids[m])})
		}
		v = server.NewObjectNode(srv, id, qn, lt, none, perms, refs, 0)
	case "ot":
		v = server.NewObjectTypeNode(srv, id, qn, lt, none, perms, sub(ua.ObjectTypeIDBaseObjectType), false)
	case "mt":
		v = server.NewVariableTypeNode(srv, id, qn, lt, none, perms, sub(ua.VariableTypeIDBaseDataVariableType), ua.DataValue{}, ua.DataTypeIDInt32, -1, nil, false)
	case "view":
		v = server.NewViewNode(srv, id, qn, lt, none, perms, under, true, 0)
	case "var":
		v = server.NewVariableNode(srv, id, qn, lt, none, perms, append(under, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(ua.VariableTypeIDBaseDataVariableType)}),
			ua.NewDataValue(int32(1), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil, ua.AccessLevelsCurrentRead, 0, false, nil)
	default:
		refs := []ua.Reference{}
		for _, o := range []string{"o1", "o2", "ot"} {
			refs = append(refs, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(w.ids[o])})
		}
		v = server.NewMethodNode(srv, id, qn, lt, none, perms, refs, c.Exec[n])
	}
	if err := srv.NamespaceManager().AddNode(v); err != nil {
		panic(err)
	}
	w.vals[n] = v
}

func (w *mWorld) request(token ua.NodeID, c mCall) *ua.CallRequest {
	m := &ua.CallRequest{RequestHeader: hdr(token, 77, 0)}
	for _, o := range c.Ops {
		in := []ua.Variant{int32(o.A), int32(o.D), o.St}
		for i := 0; i < o.N; i++ {
			in = append(in, float64(i))
		}
		m.MethodsToCall = append(m.MethodsToCall, ua.CallMethodRequest{ObjectID: w.ids[o.Obj], MethodID: w.ids[o.Meth], InputArguments: in})
	}
	return m
}

// check compares an answer with what is wanted.
func (c mCall) check(m any) string {
	if c.Want.Fault != "" {
		if f, ok := m.(ua.ServiceResponse); !ok || code(f.Header().ServiceResult) != c.Want.Fault {
			return fmt.Sprintf("answered with %T %s, want %s", m, rxResult(m), c.Want.Fault)
		}
		return ""
	}
	r, ok := m.(*ua.CallResponse)
	if !ok || r.ServiceResult != ua.Good || r.RequestHandle != 77 || len(r.Results) != len(c.Ops) {
		return fmt.Sprintf("answered with %T %s, want %d results", m, rxResult(m), len(c.Ops))
	}
	for i, o := range c.Ops {
		w, g := c.Want.Res[i], r.Results[i]
		what := fmt.Sprintf("operation %d (%s calls %s of %s)", i+1, c.U, o.Meth, o.Obj)
		found := false
		for _, x := range w.Codes {
			found = found || x == code(g.StatusCode)
		}
		if !found {
			return fmt.Sprintf("%s: %s, want %s", what, code(g.StatusCode), strings.Join(w.Codes, " or "))
		}
		var out []ua.Variant
		var args []ua.StatusCode
		if w.Run > 0 {
			out, args = mOut(c.U, w.Run, o.A, o.N), mArgs(o.St)
		}
		if len(out)+len(g.OutputArguments) > 0 && !reflect.DeepEqual(out, g.OutputArguments) {
			return fmt.Sprintf("%s: output %v, want %v", what, g.OutputArguments, out)
		}
		if len(args)+len(g.InputArgumentResults) > 0 && !reflect.DeepEqual(args, g.InputArgumentResults) {
			return fmt.Sprintf("%s: results of arguments %v, want %v", what, g.InputArgumentResults, args)
		}
	}
	return ""
}

func runMeth(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []mStep }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	w := &mWorld{conf: c.Steps[0], ids: map[string]ua.NodeID{}, vals: map[string]server.Node{}}
	caps := ua.NewServerCapabilities()
	caps.OperationLimits.MaxNodesPerMethodCall = 4
	cf := w.conf.Conf
	e := newEnv(rec, server.WithAnonymousIdentity(true), server.WithServerCapabilities(caps), server.WithRolePermissions(mPerms(cf.Default)), server.WithMaxWorkerThreads(cf.Workers),
		server.WithAuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, app, url string) error { return nil }),
		server.WithGetRolesFunc(func(id any, app, url string) ([]ua.NodeID, error) {
			rs := []ua.NodeID{}
			for _, r := range cf.Roles[mUser(id)] {
				rs = append(rs, aRole(r))
			}
			return rs, nil
		}))
	w.e = e
	for _, n := range []string{"ot", "mt", "view", "var", "m1", "m2", "m3", "m4", "o1", "o2", "none"} {
		w.ids[n] = ua.NewNodeIDString(e.ns, n)
	}
	for _, n := range []string{"ot", "mt", "view", "var", "m1", "m2", "m3", "m4", "o1", "o2"} {
		w.add(n)
		if m, ok := w.vals[n].(*server.MethodNode); ok {
			m.SetCallMethodHandler(w.handler(1))
		}
	}
	e.serve()
	toks := map[string]string{"u1": "anon", "u2": "pwAlice"}
	us := map[string]*sess{"u1": e.userSession("anon"), "u2": e.userSession("pwAlice")}
	probe := e.userSession("anon")
	for i, st := range c.Steps {
		e.until(int64(i * 2000))
		ev := obj{"i": i}
		notes := []string{}
		note := func(f string, a ...any) { notes = append(notes, fmt.Sprintf(f, a...)) }
		w.mu.Lock()
		w.runs = nil
		w.mu.Unlock()
		switch st.Op {
		case "handler":
			if m, ok := w.vals[st.M].(*server.MethodNode); ok && st.H > 0 {
				m.SetCallMethodHandler(w.handler(st.H))
			} else {
				m.SetCallMethodHandler(nil)
			}
		case "delete":
			if err := e.srv.NamespaceManager().DeleteNode(w.vals[st.N], false); err != nil {
				note("delete: %v", err)
			}
		case "create":
			w.add(st.N)
		case "call", "calls", "leave":
			ids := make([]uint32, len(st.Calls))
			slow := 0
			for k, call := range st.Calls {
				s := us[call.U]
				if st.Op == "leave" {
					s = e.userSession(toks[call.U])
				}
				ids[k] = s.p.req()
				s.p.send(w.request(s.token, call), ids[k])
				for _, o := range call.Ops {
					if o.D > 0 {
						slow++
					}
				}
				if st.Op == "leave" {
					synctest.Wait()
					s.p.close()
				}
			}
			if slow < cf.Workers {
				// others are not held up
				ans, _ := probe.p.ask(&ua.ReadRequest{RequestHeader: hdr(probe.token, 1, 0), NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerNamespaceArray, AttributeID: ua.AttributeIDValue}}})
				if _, ok := ans.(*ua.ReadResponse); !ok {
					note("a read meanwhile is answered with %T", ans)
				}
			}
			time.Sleep(1500 * time.Millisecond)
			synctest.Wait()
			probe.p.take()
			got := map[uint32][]any{}
			for _, u := range []string{"u1", "u2"} {
				for _, r := range us[u].p.take() {
					got[r.ReqID] = append(got[r.ReqID], r.Msg)
					if r.Kind != "MSG" {
						note("received %s", r.Kind)
					}
				}
				for k, call := range st.Calls {
					if call.U != u || st.Op == "leave" {
						continue
					}
					if len(got[ids[k]]) != 1 {
						note("call %d of %s answered %d times", k+1, u, len(got[ids[k]]))
					} else if s := call.check(got[ids[k]][0]); s != "" {
						note("%s", s)
					}
				}
				clear(got)
			}
			want := []string{}
			for _, call := range st.Calls {
				for j, r := range call.Want.Res {
					if o := call.Ops[j]; r.Run > 0 {
						want = append(want, runKey(call.U, o.Obj, o.Meth, r.Run, o.A, o.N))
					}
				}
			}
			w.mu.Lock()
			sort.Strings(want)
			sort.Strings(w.runs)
			if strings.Join(want, "\n") != strings.Join(w.runs, "\n") {
				note("ran %q, want %q", w.runs, want)
			}
			w.mu.Unlock()
		}
		if len(notes) > 0 {
			ev["notes"] = notes[:min(4, len(notes))]
		}
		rec.emit(ev)
	}
}
