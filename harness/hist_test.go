package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["hist"] = runHist }

type hVal struct {
	V  int
	St string
}
type hOp struct {
	N     string
	From  int
	Range string
}
type hReq struct {
	Kind          string
	Ops           []hOp
	Max, A        int
	Ts            string
	Release, Fail bool
}
type hStep struct {
	Op   string
	Conf struct {
		Roles     map[string][]string
		Perm      map[string]map[string][]string
		Historian bool
		On        map[string]bool
		Slow      bool
	}
	U, N, M string
	V, Max  int
	W       struct {
		N   string
		V   int
		St  string
		Bad bool
	}
	Code   string
	Val    hVal
	Rec    bool
	Vs     []int
	B, Bad bool
	R      hReq
	Vals   []hVal
	Want   struct {
		Fault bool
		Ask   []hOp
		Res   []struct {
			Code string
			Vals []hVal
			Next int
		}
	}
}

// historian keeps the values of variables in memory and notes how it is used.
type historian struct {
	mu    sync.Mutex
	slow  bool
	log   map[ua.NodeID][]ua.DataValue
	news  []string
	calls []any
	fail  bool
}
type hCall struct {
	Kind    string
	Nodes   []ua.HistoryReadValueID
	Details any
	Ts      ua.TimestampsToReturn
	Release bool
}

func (h *historian) WriteEvent(ctx context.Context, id ua.NodeID, f []ua.Variant) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.news = append(h.news, fmt.Sprintf("event of %v", id))
	return nil
}
func (h *historian) WriteValue(ctx context.Context, id ua.NodeID, v ua.DataValue) error {
	if x, ok := v.Value.(int32); ok && h.slow {
		for i := int32(0); i < x%3*200; i++ {
			runtime.Gosched()
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.log[id] = append(h.log[id], v)
	h.news = append(h.news, fmt.Sprintf("%v %v %s", id, v.Value, code(v.StatusCode)))
	return nil
}
func (h *historian) answer(kind string, nodes []ua.HistoryReadValueID, details any, ts ua.TimestampsToReturn, release bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls = append(h.calls, hCall{kind, append([]ua.HistoryReadValueID{}, nodes...), details, ts, release})
	if h.fail {
		return nil, ua.BadTimeout
	}
	out := []ua.HistoryReadResult{}
	for _, n := range nodes {
		raw, ok := details.(ua.ReadRawModifiedDetails)
		if !ok || raw.IsReadModified || release {
			out = append(out, ua.HistoryReadResult{HistoryData: ua.HistoryData{DataValues: []ua.DataValue{ua.NewDataValue(fmt.Sprintf("%s %v", kind, n.NodeID), 0, time.Time{}, 0, time.Time{}, 0)}}})
			continue
		}
		log, ok := h.log[n.NodeID]
		if !ok {
			out = append(out, ua.HistoryReadResult{StatusCode: ua.BadHistoryOperationUnsupported})
			continue
		}
		from := 0
		if n.ContinuationPoint != "" {
			fmt.Sscanf(string(n.ContinuationPoint), "%d", &from)
		}
		log = log[min(from, len(log)):]
		if len(log) == 0 {
			out = append(out, ua.HistoryReadResult{StatusCode: ua.GoodNoData})
			continue
		}
		r := ua.HistoryReadResult{}
		if m := int(raw.NumValuesPerNode); m > 0 && m < len(log) {
			log = log[:m]
			r.ContinuationPoint = ua.ByteString(fmt.Sprint(from + m))
		}
		r.HistoryData = ua.HistoryData{DataValues: append([]ua.DataValue{}, log...)}
		out = append(out, r)
	}
	return out, ua.Good
}
func (h *historian) ReadEvent(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadEventDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.answer("event", n, d, ts, rel)
}
func (h *historian) ReadRawModified(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadRawModifiedDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.answer("raw", n, d, ts, rel)
}
func (h *historian) ReadProcessed(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadProcessedDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.answer("processed", n, d, ts, rel)
}
func (h *historian) ReadAtTime(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadAtTimeDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.answer("attime", n, d, ts, rel)
}

func runHist(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []hStep }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	cf := c.Steps[0].Conf
	h := &historian{slow: cf.Slow, log: map[ua.NodeID][]ua.DataValue{}}
	caps := ua.NewServerCapabilities()
	caps.OperationLimits.MaxNodesPerHistoryReadData, caps.OperationLimits.MaxNodesPerHistoryReadEvents = 6, 6
	opts := []server.Option{server.WithAnonymousIdentity(true), server.WithServerCapabilities(caps),
		server.WithAuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, app, url string) error { return nil }),
		server.WithGetRolesFunc(func(id any, app, url string) ([]ua.NodeID, error) {
			rs := []ua.NodeID{}
			for _, r := range cf.Roles[mUser(id)] {
				rs = append(rs, aRole(r))
			}
			return rs, nil
		})}
	var hw server.HistoryReadWriter
	if cf.Historian {
		hw = h
		opts = append(opts, server.WithHistorian(h))
	}
	e := newEnv(rec, opts...)
	// recording is of the variables below alone
	ids, vars := map[string]ua.NodeID{"none": ua.NewNodeIDString(e.ns, "none")}, map[string]*server.VariableNode{}
	for _, n := range []string{"h1", "h2", "h3", "obj"} {
		ids[n] = ua.NewNodeIDString(e.ns, n)
		perms := []ua.RolePermissionType{}
		for _, r := range []string{"r1", "r2"} {
			p := ua.PermissionTypeRead | ua.PermissionTypeCall
			for k, b := range map[string]ua.PermissionType{"browse": ua.PermissionTypeBrowse, "write": ua.PermissionTypeWrite, "hist": ua.PermissionTypeReadHistory, "config": ua.PermissionTypeWriteHistorizing} {
				for _, x := range cf.Perm[n][k] {
					if x == r {
						p |= b
					}
				}
			}
			perms = append(perms, ua.RolePermissionType{RoleID: aRole(r), Permissions: p})
		}
		qn, lt, none := ua.NewQualifiedName(e.ns, n), ua.NewLocalizedText(n, "en"), ua.LocalizedText{}
		under := []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder)}}
		var v server.Node
		if n == "obj" {
			v = server.NewObjectNode(e.srv, ids[n], qn, lt, none, perms, append(under, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(ua.ObjectTypeIDBaseObjectType)}), ua.EventNotifierHistoryRead)
		} else {
			h.log[ids[n]] = nil
			vars[n] = server.NewVariableNode(e.srv, ids[n], qn, lt, none, perms, append(under, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(ua.VariableTypeIDBaseDataVariableType)}),
				ua.NewDataValue(int32(0), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite|ua.AccessLevelsHistoryRead|ua.AccessLevelsHistoryWrite, 0, cf.On[n], hw)
			v = vars[n]
		}
		if err := e.srv.NamespaceManager().AddNode(v); err != nil {
			panic(err)
		}
	}
	e.serve()
	us := map[string]*sess{"u1": e.userSession("anon"), "u2": e.userSession("pwAlice")}
	tss := map[string]ua.TimestampsToReturn{"source": ua.TimestampsToReturnSource, "server": ua.TimestampsToReturnServer, "both": ua.TimestampsToReturnBoth, "neither": ua.TimestampsToReturnNeither}
	vals := func(r ua.HistoryReadResult) []string {
		out := []string{}
		if d, ok := r.HistoryData.(ua.HistoryData); ok {
			for _, v := range d.DataValues {
				out = append(out, fmt.Sprintf("%v %s", v.Value, code(v.StatusCode)))
			}
		}
		return out
	}
	want := func(vs []hVal) []string {
		out := []string{}
		for _, v := range vs {
			out = append(out, fmt.Sprintf("%d %s", v.V, v.St))
		}
		return out
	}
	for i, st := range c.Steps {
		e.until(int64(i * 1000))
		notes := []string{}
		note := func(f string, a ...any) { notes = append(notes, fmt.Sprintf(f, a...)) }
		h.mu.Lock()
		h.news, h.calls, h.fail = nil, nil, st.R.Fail
		h.mu.Unlock()
		// what was recorded since: nothing, or one value
		recorded := func(rec bool, n string, v hVal) {
			synctest.Wait()
			h.mu.Lock()
			defer h.mu.Unlock()
			w := []string{}
			if rec {
				w = append(w, fmt.Sprintf("%v %d %s", ids[n], v.V, v.St))
			}
			if strings.Join(w, ", ") != strings.Join(h.news, ", ") {
				note("recorded %q, want %q", h.news, w)
			} else if rec {
				if l := h.log[ids[n]]; !reflect.DeepEqual(l[len(l)-1], vars[n].Value()) {
					note("recorded %v, the value is %v", l[len(l)-1], vars[n].Value())
				}
			}
		}
		write := func(u, n string, attr uint32, v any, s ua.StatusCode) string {
			r, _ := us[u].p.ask(&ua.WriteRequest{RequestHeader: hdr(us[u].token, 5, 0), NodesToWrite: []ua.WriteValue{{NodeID: ids[n], AttributeID: attr, Value: ua.NewDataValue(v, s, time.Time{}, 0, time.Time{}, 0)}}})
			x, ok := r.(*ua.WriteResponse)
			if !ok || x.ServiceResult != ua.Good || len(x.Results) != 1 {
				return rxResult(r)
			}
			return code(x.Results[0])
		}
		request := func(u string, r hReq, cps []ua.ByteString) (*ua.HistoryReadRequest, any) {
			t1, t2 := e.t0.Add(time.Duration(r.A)*time.Second), e.t0.Add(time.Hour)
			var d any
			switch r.Kind {
			case "raw", "modified":
				d = ua.ReadRawModifiedDetails{IsReadModified: r.Kind == "modified", StartTime: t1, EndTime: t2, NumValuesPerNode: uint32(r.Max), ReturnBounds: r.A > 5}
			case "processed":
				d = ua.ReadProcessedDetails{StartTime: t1, EndTime: t2, ProcessingInterval: float64(r.A), AggregateType: []ua.NodeID{ua.NewNodeIDNumeric(0, 2342)}}
			case "attime":
				d = ua.ReadAtTimeDetails{ReqTimes: []time.Time{t1, t2}, UseSimpleBounds: r.A > 5}
			case "event":
				d = ua.ReadEventDetails{NumValuesPerNode: uint32(r.Max), StartTime: t1, EndTime: t2, Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{}}}
			case "none":
				if r.A > 5 {
					d = ua.ReadAnnotationDataDetails{ReqTimes: []time.Time{t1}}
				}
			}
			m := &ua.HistoryReadRequest{RequestHeader: hdr(us[u].token, uint32(100+r.A), 0), HistoryReadDetails: d, TimestampsToReturn: tss[r.Ts], ReleaseContinuationPoints: r.Release}
			for j, o := range r.Ops {
				v := ua.HistoryReadValueID{NodeID: ids[o.N], IndexRange: o.Range}
				if o.From > 0 {
					v.ContinuationPoint = ua.ByteString(fmt.Sprint(o.From))
				}
				if cps != nil {
					v.ContinuationPoint = cps[j]
				}
				m.NodesToRead = append(m.NodesToRead, v)
			}
			a, _ := us[u].p.ask(m)
			return m, a
		}
		switch st.Op {
		case "set":
			vars[st.N].SetValue(ua.NewDataValue(int32(st.V), 0, time.Now(), 0, time.Now(), 0))
			recorded(st.Rec, st.N, hVal{st.V, "Good"})
		case "write":
			var v any = int32(st.W.V)
			if st.W.Bad {
				v = "a text"
			}
			if r := write(st.U, st.W.N, ua.AttributeIDValue, v, statusByName(st.W.St)); r != st.Code {
				note("%s writes %+v: %s, want %s", st.U, st.W, r, st.Code)
			}
			recorded(st.Rec, st.W.N, st.Val)
		case "rush":
			for _, v := range st.Vs {
				go vars[st.N].SetValue(ua.NewDataValue(int32(v), 0, time.Now(), 0, time.Now(), 0))
			}
			synctest.Wait()
			h.mu.Lock()
			l := h.log[ids[st.N]]
			l = l[max(0, len(l)-len(st.Vs)):]
			seen := map[any]bool{}
			for _, v := range l {
				seen[v.Value] = true
			}
			for _, v := range st.Vs {
				if !seen[int32(v)] {
					note("value %d of %v is not recorded", v, st.Vs)
				}
			}
			if len(h.news) != len(st.Vs) {
				note("%d values recorded of %d: %v", len(h.news), len(st.Vs), h.news)
			} else if last := vars[st.N].Value(); !reflect.DeepEqual(l[len(l)-1], last) {
				note("the value is %v after %v was recorded last", last.Value, l[len(l)-1].Value)
			}
			h.log[ids[st.N]] = nil
			h.mu.Unlock()
			vars[st.N].SetHistorizing(false)
		case "handler":
			m := st.M
			switch m {
			case "none":
				vars[st.N].SetWriteValueHandler(nil)
			default:
				vars[st.N].SetWriteValueHandler(func(s *server.Session, w ua.WriteValue) (ua.DataValue, ua.StatusCode) {
					if m == "reject" {
						return w.Value, ua.BadOutOfRange
					}
					return ua.NewDataValue(2*w.Value.Value.(int32), w.Value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
				})
			}
		case "switch":
			if st.U == "program" {
				vars[st.N].SetHistorizing(st.B)
			} else {
				var v any = st.B
				if st.Bad {
					v = int32(1)
				}
				if r := write(st.U, st.N, ua.AttributeIDHistorizing, v, 0); r != st.Code {
					note("%s switches the recording of %s: %s, want %s", st.U, st.N, r, st.Code)
				}
			}
			if v := vars[st.N]; v != nil && st.Code == "Good" && v.Historizing() != st.B {
				note("recording %v, want %v", v.Historizing(), st.B)
			}
			recorded(false, "", hVal{})
		case "read":
			m, a := request(st.U, st.R, nil)
			wc := []any{}
			if len(st.Want.Ask) > 0 {
				k := hCall{Kind: map[string]string{"modified": "raw"}[st.R.Kind] + st.R.Kind, Details: m.HistoryReadDetails, Ts: m.TimestampsToReturn, Release: m.ReleaseContinuationPoints}
				k.Kind = strings.TrimSuffix(k.Kind, "modified")
				for _, o := range st.Want.Ask {
					v := ua.HistoryReadValueID{NodeID: ids[o.N], IndexRange: o.Range}
					if o.From > 0 {
						v.ContinuationPoint = ua.ByteString(fmt.Sprint(o.From))
					}
					k.Nodes = append(k.Nodes, v)
				}
				wc = append(wc, k)
			}
			h.mu.Lock()
			if g, w := hShow(h.calls), hShow(wc); g != w {
				note("asked of the historian: %s, want %s", g, w)
			}
			h.mu.Unlock()
			r, ok := a.(*ua.HistoryReadResponse)
			if st.Want.Fault {
				if ok && st.R.Kind == "none" && len(r.Results) == len(st.R.Ops) && !slices.ContainsFunc(r.Results, func(x ua.HistoryReadResult) bool { return !x.StatusCode.IsBad() }) {
					break // all nodes denied
				}
				if s, ok := a.(ua.ServiceResponse); !ok || !s.Header().ServiceResult.IsBad() || st.R.Fail && len(st.Want.Ask) > 0 && s.Header().ServiceResult != ua.BadTimeout {
					note("answered with %T %s, want a fault", a, rxResult(a))
				}
				break
			}
			if !ok || r.ServiceResult != ua.Good || r.RequestHandle != uint32(100+st.R.A) || len(r.Results) != len(st.R.Ops) {
				note("answered with %T %s, want %d results", a, rxResult(a), len(st.R.Ops))
				break
			}
			for j, w := range st.Want.Res {
				g := r.Results[j]
				wv, cp := want(w.Vals), ""
				if w.Code == "Good" && (st.R.Kind != "raw" || st.R.Release) {
					wv = []string{fmt.Sprintf("%s %v Good", strings.Replace(st.R.Kind, "modified", "raw", 1), ids[st.R.Ops[j].N])}
				}
				if w.Next > 0 {
					cp = fmt.Sprint(w.Next)
				}
				if code(g.StatusCode) != w.Code || string(g.ContinuationPoint) != cp || !reflect.DeepEqual(vals(g), wv) {
					note("%s reads %+v of %s: %s %q %v, want %s %q %v", st.U, st.R, st.R.Ops[j].N, code(g.StatusCode), string(g.ContinuationPoint), vals(g), w.Code, cp, wv)
				}
			}
		case "pages":
			got, cps := []string{}, []ua.ByteString{""}
			for k := 0; k < 100; k++ {
				_, a := request(st.U, hReq{Kind: "raw", Ops: []hOp{{N: st.N}}, Max: st.Max, Ts: "both"}, cps)
				r, ok := a.(*ua.HistoryReadResponse)
				if !ok || len(r.Results) != 1 {
					note("answered with %T %s", a, rxResult(a))
					break
				}
				if g := r.Results[0]; g.StatusCode.IsBad() || st.Code != "" {
					if code(g.StatusCode) != st.Code {
						note("%s reads %s: %s, want %s", st.U, st.N, code(g.StatusCode), st.Code)
					}
				}
				got = append(got, vals(r.Results[0])...)
				cps[0] = r.Results[0].ContinuationPoint
				if cps[0] == "" {
					break
				}
			}
			if w := want(st.Vals); !reflect.DeepEqual(got, w) {
				note("%s reads the history of %s: %v, want %v", st.U, st.N, got, w)
			}
		}
		ev := obj{"i": i}
		if len(notes) > 0 {
			ev["notes"] = notes
		}
		rec.emit(ev)
	}
	e.srv.Close()
}

// hShow describes calls; equal calls look the same.
func hShow(calls []any) string {
	out := []string{}
	for _, c := range calls {
		k := c.(hCall)
		b, _ := json.Marshal(k.Details)
		ns := []string{}
		for _, n := range k.Nodes {
			ns = append(ns, fmt.Sprintf("%v %q %q", n.NodeID, n.IndexRange, string(n.ContinuationPoint)))
		}
		out = append(out, fmt.Sprintf("%s of %v with %T %s, timestamps %d, release %v", k.Kind, ns, k.Details, strings.ReplaceAll(string(b), "null", "[]"), k.Ts, k.Release))
	}
	return strings.Join(out, "; ")
}
