package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["disp"] = runDisp }

type dispStep struct {
	Op, Svc, T, Tok, Want string
	V                     json.RawMessage
	N, K, Lo, Of          int
	Handle                uint32
	Burst                 bool
}

type disp struct {
	e     *env
	s     *sess
	c     *codec
	subs  []uint32
	items []uint32
	pubs  map[uint32]bool
	cps   []ua.ByteString
	notes []string
	vars  []ua.NodeID
}

func (d *disp) note(f string, a ...any) { d.notes = append(d.notes, fmt.Sprintf(f, a...)) }

// goName is the name of a service in the library.
func goName(svc string) string {
	return strings.ReplaceAll(strings.ReplaceAll(svc, "Ids", "IDs"), "Id", "ID")
}

// real replaces small ids by ids that exist.
func (d *disp) real(x reflect.Value) {
	switch x.Kind() {
	case reflect.Ptr:
		if !x.IsNil() {
			d.real(x.Elem())
		}
	case reflect.Slice:
		for i := 0; i < x.Len(); i++ {
			d.real(x.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			f, n := x.Field(i), x.Type().Field(i).Name
			pick := func(v reflect.Value, from []uint32) {
				if k := int(v.Uint() % 64); k > 0 && len(from) > 0 {
					v.SetUint(uint64(from[k%len(from)]))
				}
			}
			switch n {
			case "SubscriptionID":
				pick(f, d.subs)
			case "MonitoredItemID", "TriggeringItemID":
				pick(f, d.items)
			case "SubscriptionIDs", "MonitoredItemIDs", "LinksToAdd", "LinksToRemove":
				from := d.items
				if n == "SubscriptionIDs" {
					from = d.subs
				}
				for j := 0; j < f.Len() && f.Type().Elem().Kind() == reflect.Uint32; j++ {
					pick(f.Index(j), from)
				}
			case "ContinuationPoints":
				for j := 0; j < f.Len() && len(d.cps) > 0 && j < 2; j++ {
					f.Index(j).SetString(string(d.cps[len(d.cps)-1]))
					d.cps = d.cps[:len(d.cps)-1]
				}
			default:
				d.real(f)
			}
		}
	}
}

// answer waits for the answers to the requests ids and judges them.
func (d *disp) answer(what, svc string, handle uint32, ids []uint32, want string, n int) {
	synctest.Wait()
	got := map[uint32]Rx{}
	for _, r := range d.s.p.take() {
		if r.Kind == "MSG" && d.pubs[r.ReqID] && (r.Name == "PublishResponse" || r.Name == "ServiceFault") {
			delete(d.pubs, r.ReqID)
			continue
		}
		if r.Kind != "MSG" {
			d.note("%s: the connection got %s 0x%08X %s", what, r.Kind, r.Code, r.Err)
			return
		}
		if _, ok := got[r.ReqID]; ok {
			d.note("%s: a second answer (%s) to request %d", what, r.Name, r.ReqID)
			return
		}
		got[r.ReqID] = r
	}
	for _, id := range ids {
		r, ok := got[id]
		delete(got, id)
		if !ok {
			if os.Getenv("DISP_DEBUG") != "" {
				buf := make([]byte, 1<<20)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			}
			d.note("%s: no answer", what)
			return
		}
		d.judge(what, svc, handle, r, want, n)
	}
	for id, r := range got {
		d.note("%s: an answer (%s) to request %d, which was not asked", what, r.Name, id)
	}
}

func (d *disp) judge(what, svc string, handle uint32, r Rx, want string, n int) {
	x := reflect.ValueOf(r.Msg).Elem()
	h := x.FieldByName("ResponseHeader").Interface().(ua.ResponseHeader)
	if h.RequestHandle != handle {
		d.note("%s: the answer has the handle %d, the request %d", what, h.RequestHandle, handle)
	}
	if r.Name != "ServiceFault" && r.Name != goName(svc)+"Response" {
		d.note("%s: the answer is a %s", what, r.Name)
		return
	}
	if r.Name == "ServiceFault" && h.ServiceResult == ua.Good {
		d.note("%s: a fault without a status", what)
	}
	bad := h.ServiceResult.IsBad()
	switch want {
	case "any":
	case "fault":
		if !bad {
			d.note("%s: the answer is %s, want a fault", what, code(h.ServiceResult))
		}
	default:
		if code(h.ServiceResult) != want {
			d.note("%s: the answer is %s, want %s", what, code(h.ServiceResult), want)
		}
	}
	if bad {
		return
	}
	if m, ok := r.Msg.(*ua.CreateSubscriptionResponse); ok {
		d.subs = append(d.subs, m.SubscriptionID)
	}
	if n < 0 {
		return
	}
	f := x.FieldByName("Results")
	if svc == "RegisterNodes" {
		f = x.FieldByName("RegisteredNodeIDs")
	}
	if f.Len() != n {
		d.note("%s: %d results for %d operations", what, f.Len(), n)
	}
	switch m := r.Msg.(type) {
	case *ua.CreateMonitoredItemsResponse:
		for _, i := range m.Results {
			if i.StatusCode.IsGood() {
				d.items = append(d.items, i.MonitoredItemID)
			}
		}
	case *ua.BrowseResponse:
		for _, i := range m.Results {
			if i.ContinuationPoint != "" {
				d.cps = append(d.cps, i.ContinuationPoint)
			}
		}
	}
}

func (d *disp) header(tok string, handle uint32) ua.RequestHeader {
	h := hdr(nil, handle, 0)
	switch tok {
	case "session":
		h.AuthenticationToken = d.s.token
	case "bogus":
		h.AuthenticationToken = ua.NewNodeIDNumeric(1, 12345)
	}
	return h
}

// newRequest makes an empty request of a service.
func newRequest(svc string) reflect.Value {
	for _, m := range msgTypes {
		if m.name == goName(svc)+"Request" {
			return reflect.ValueOf(m.mk())
		}
	}
	panic("no request for " + svc)
}

func (d *disp) random(i int, st dispStep) {
	what := fmt.Sprintf("step %d, %s", i, st.Svc)
	p := d.s.p
	if st.Svc == "Unknown" {
		// a type id nobody knows, and a request header
		id := p.req()
		b := p.encodeBody(&ua.CancelRequest{RequestHeader: d.header("session", st.Handle)})
		b[2], b[3] = 0xef, 0xbe
		p.sendMu.Lock()
		for _, c := range p.buildMSG(b, id, msgOpts{}) {
			p.raw(c)
		}
		p.sendMu.Unlock()
		synctest.Wait()
		// it cannot be decoded: a fault, or the end of the connection
		for _, r := range p.take() {
			if r.Kind != "MSG" {
				d.connect()
				return
			}
			if r.ReqID == id && r.Name != "ServiceFault" {
				d.note("%s: answered by %s", what, r.Name)
			}
		}
		return
	}
	x := newRequest(st.Svc)
	d.c.notes = nil
	d.c.fields(st.T, from[[]json.RawMessage](st.V), x.Elem())
	if len(d.c.notes) > 0 {
		panic(d.c.notes[0])
	}
	d.real(x)
	n := 1
	if st.Burst && st.Want != "any" || st.Burst && (st.Svc == "Read" || st.Svc == "Write" || st.Svc == "CreateMonitoredItems" || st.Svc == "Call") {
		n = 3
	}
	var ids []uint32
	for ; n > 0; n-- {
		x.Elem().FieldByName("RequestHeader").Set(reflect.ValueOf(d.header(st.Tok, st.Handle)))
		id := p.req()
		p.send(x.Interface(), id)
		ids = append(ids, id)
	}
	want := st.Want
	if want == "BadSessionIDInvalid" && st.Svc == "ActivateSession" {
		want = "fault"
	}
	d.answer(what, st.Svc, st.Handle, ids, want, st.N)
}

func (d *disp) plain(i int, st dispStep) {
	what := fmt.Sprintf("step %d, %s of %d", i, st.Svc, st.K)
	x := newRequest(st.Svc)
	x.Elem().FieldByName("RequestHeader").Set(reflect.ValueOf(d.header("session", st.Handle)))
	clock := ua.NewNodeIDNumeric(0, 2258)
	if st.Svc == "CreateMonitoredItems" || st.Svc == "ModifyMonitoredItems" || st.Svc == "SetMonitoringMode" || st.Svc == "DeleteMonitoredItems" {
		x.Elem().FieldByName("SubscriptionID").SetUint(uint64(d.sub()))
	}
	for k := 0; k < st.K; k++ {
		switch m := x.Interface().(type) {
		case *ua.ReadRequest:
			m.NodesToRead = append(m.NodesToRead, ua.ReadValueID{NodeID: clock, AttributeID: ua.AttributeIDValue})
		case *ua.WriteRequest:
			m.NodesToWrite = append(m.NodesToWrite, ua.WriteValue{NodeID: clock, AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(int32(k), 0, time.Time{}, 0, time.Time{}, 0)})
		case *ua.BrowseRequest:
			m.NodesToBrowse = append(m.NodesToBrowse, ua.BrowseDescription{NodeID: ua.ObjectIDObjectsFolder, ResultMask: 63})
		case *ua.BrowseNextRequest:
			m.ContinuationPoints = append(m.ContinuationPoints, "no such")
		case *ua.TranslateBrowsePathsToNodeIDsRequest:
			m.BrowsePaths = append(m.BrowsePaths, ua.BrowsePath{StartingNode: ua.ObjectIDRootFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.NewQualifiedName(0, "Objects")}}}})
		case *ua.RegisterNodesRequest:
			m.NodesToRegister = append(m.NodesToRegister, clock)
		case *ua.UnregisterNodesRequest:
			m.NodesToUnregister = append(m.NodesToUnregister, clock)
		case *ua.HistoryReadRequest:
			m.NodesToRead = append(m.NodesToRead, ua.HistoryReadValueID{NodeID: clock})
		case *ua.CallRequest:
			m.MethodsToCall = append(m.MethodsToCall, ua.CallMethodRequest{ObjectID: ua.ObjectIDServer, MethodID: clock})
		case *ua.CreateMonitoredItemsRequest:
			m.ItemsToCreate = append(m.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: clock, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 1000, QueueSize: 1}})
		case *ua.ModifyMonitoredItemsRequest:
			m.ItemsToModify = append(m.ItemsToModify, ua.MonitoredItemModifyRequest{MonitoredItemID: d.item(k), RequestedParameters: ua.MonitoringParameters{SamplingInterval: 1000, QueueSize: 1}})
		case *ua.SetMonitoringModeRequest:
			m.MonitoringMode = ua.MonitoringModeReporting
			m.MonitoredItemIDs = append(m.MonitoredItemIDs, d.item(k))
		case *ua.DeleteMonitoredItemsRequest:
			m.MonitoredItemIDs = append(m.MonitoredItemIDs, d.item(k))
		}
	}
	switch m := x.Interface().(type) {
	case *ua.HistoryReadRequest:
		m.HistoryReadDetails = ua.ReadRawModifiedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now(), NumValuesPerNode: 10}
		m.TimestampsToReturn = ua.TimestampsToReturnBoth
	}
	id := d.s.p.req()
	d.s.p.send(x.Interface(), id)
	d.answer(what, st.Svc, st.Handle, []uint32{id}, st.Want, st.N)
}

func (d *disp) item(k int) uint32 {
	if k < len(d.items) {
		return d.items[len(d.items)-1-k]
	}
	return 99999
}

// sub makes a subscription, the most recent of d.subs.
func (d *disp) sub() uint32 {
	r, ok := d.s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: d.header("session", 1), RequestedPublishingInterval: 200, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 5, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse)
	if !ok {
		panic("setup: no subscription")
	}
	d.subs = append(d.subs, r.SubscriptionID)
	return r.SubscriptionID
}

// ping reads the clock: whatever was asked before, the server and this session go on.
func (d *disp) ping(i int) bool {
	id := d.s.p.req()
	d.s.p.send(&ua.ReadRequest{RequestHeader: d.header("session", id), NodesToRead: []ua.ReadValueID{{NodeID: ua.NewNodeIDNumeric(0, 2258), AttributeID: ua.AttributeIDValue}}}, id)
	n := len(d.notes)
	d.answer(fmt.Sprintf("after step %d", i), "Read", id, []uint32{id}, "Good", 1)
	return n == len(d.notes)
}

// all reads every attribute of a part of the nodes.
func (d *disp) all(i int, st dispStep, lim int) {
	nodes := d.vars
	lo, hi := len(nodes)*st.Lo/st.Of, len(nodes)*(st.Lo+1)/st.Of
	var ops []ua.ReadValueID
	flush := func() bool {
		if len(ops) == 0 {
			return true
		}
		id := d.s.p.req()
		d.s.p.send(&ua.ReadRequest{RequestHeader: d.header("session", id), TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: ops}, id)
		n := len(d.notes)
		d.answer(fmt.Sprintf("step %d, reading %v attribute %d and following", i, ops[0].NodeID, ops[0].AttributeID), "Read", id, []uint32{id}, "Good", len(ops))
		ops = nil
		return n == len(d.notes)
	}
	for _, n := range nodes[lo:hi] {
		for a := uint32(0); a <= 28; a++ {
			ops = append(ops, ua.ReadValueID{NodeID: n, AttributeID: a})
			if len(ops) == lim && !flush() {
				return
			}
		}
	}
	flush()
}

func (d *disp) connect() {
	d.s = d.e.session(1)
	d.subs, d.items, d.cps, d.pubs = nil, nil, nil, map[uint32]bool{}
}

func (d *disp) publish() {
	for len(d.pubs) < 3 {
		id := d.s.p.req()
		d.pubs[id] = true
		d.s.p.send(&ua.PublishRequest{RequestHeader: d.header("session", id)}, id)
	}
}

func loadSchema(s map[string][][3]any) {
	for n, fs := range s {
		q := []codecField{}
		for _, f := range fs {
			q = append(q, codecField{f[0].(string), f[1].(string), f[2].(bool)})
		}
		codecSchema[n] = q
	}
}

func runDisp(rec *recorder, raw json.RawMessage) {
	var cs struct {
		Limits map[string]uint32
		Steps  []dispStep
		Ids    map[string]uint32
		Schema map[string][][3]any
	}
	if err := json.Unmarshal(raw, &cs); err != nil {
		panic(err)
	}
	loadSchema(cs.Schema)
	l := cs.Limits
	caps := ua.NewServerCapabilities()
	caps.OperationLimits.MaxNodesPerRead, caps.OperationLimits.MaxNodesPerWrite, caps.OperationLimits.MaxNodesPerBrowse = l["read"], l["write"], l["browse"]
	caps.OperationLimits.MaxNodesPerTranslateBrowsePathsToNodeIds, caps.OperationLimits.MaxNodesPerRegisterNodes, caps.OperationLimits.MaxNodesPerMethodCall = l["translate"], l["register"], l["call"]
	caps.OperationLimits.MaxNodesPerHistoryReadData, caps.OperationLimits.MaxNodesPerHistoryReadEvents, caps.OperationLimits.MaxMonitoredItemsPerCall = l["history"], l["history"], l["items"]
	e := newEnv(rec, server.WithServerCapabilities(caps), server.WithAnonymousIdentity(true), server.WithServerDiagnostics(true))
	e.serve()
	d := &disp{e: e, c: &codec{ids: cs.Ids}, pubs: map[uint32]bool{}}
	// the identifiers of the standard lie in these ranges
	for _, r := range [][2]uint32{{1, 4000}, {11000, 13200}} {
		for n := r[0]; n < r[1]; n++ {
			d.vars = append(d.vars, ua.NewNodeIDNumeric(0, n))
		}
	}
	d.connect()
	for i, st := range cs.Steps {
		if len(d.subs) == 0 {
			d.sub()
		}
		switch st.Op {
		case "random":
			d.random(i, st)
		case "plain":
			d.plain(i, st)
		case "all":
			d.all(i, st, int(l["read"]))
		}
		ok := len(d.notes) == 0 && d.ping(i)
		if ok && i%5 == 4 {
			// let the subscriptions work
			d.publish()
			time.Sleep(600 * time.Millisecond)
			ok = d.ping(i)
		}
		rec.emit(obj{"i": i, "svc": st.Svc, "notes": d.notes})
		if !ok {
			return
		}
		d.notes = nil
	}
}
