package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["sub"] = runSub }

type subOp struct {
	Op    string          `json:"op"`
	S     int             `json:"s"`
	Rid   uint32          `json:"rid"`
	T     int64           `json:"t"`
	Pi    float64         `json:"pi"`
	Ka    uint32          `json:"ka"`
	Lt    uint32          `json:"lt"`
	MaxN  uint32          `json:"maxN"`
	En    bool            `json:"en"`
	Prio  byte            `json:"prio"`
	Sub   uint32          `json:"sub"`
	Subs  []uint32        `json:"subs"`
	Hint  uint32          `json:"hint"`
	Seq   uint32          `json:"seq"`
	Acks  []subAck        `json:"acks"`
	Ttr   string          `json:"ttr"`
	Items []subItem       `json:"items"`
	Mode  string          `json:"mode"`
	Ids   []uint32        `json:"ids"`
	Item  uint32          `json:"item"`
	Add   []uint32        `json:"add"`
	Rem   []uint32        `json:"rem"`
	Node  string          `json:"node"`
	V     int32           `json:"v"`
	Sc    string          `json:"sc"`
	raw   json.RawMessage `json:"-"`
}

type subAck struct{ Sub, Seq uint32 }

type subItem struct {
	ID   uint32  `json:"id"`
	Node string  `json:"node"`
	Mode string  `json:"mode"`
	H    uint32  `json:"h"`
	Si   float64 `json:"si"`
	Qs   uint32  `json:"qs"`
	Disc bool    `json:"disc"`
	Trig string  `json:"trig"`
	Db   float64 `json:"db"`
}

var modes = map[string]ua.MonitoringMode{"Disabled": ua.MonitoringModeDisabled, "Sampling": ua.MonitoringModeSampling, "Reporting": ua.MonitoringModeReporting}
var ttrs = map[string]ua.TimestampsToReturn{"Source": ua.TimestampsToReturnSource, "Server": ua.TimestampsToReturnServer, "Both": ua.TimestampsToReturnBoth, "Neither": ua.TimestampsToReturnNeither}
var trigs = map[string]ua.DataChangeTrigger{"Status": ua.DataChangeTriggerStatus, "StatusValue": ua.DataChangeTriggerStatusValue, "StatusValueTimestamp": ua.DataChangeTriggerStatusValueTimestamp}

// ids maps identifiers chosen by the server to 1, 2, 3, ... in order of creation, and back.
type ids struct {
	logical map[uint32]int
	real    []uint32
}

func newIDs() *ids { return &ids{logical: map[uint32]int{}} }
func (m *ids) add(r uint32) int {
	if l, ok := m.logical[r]; ok {
		return -l // given out twice
	}
	m.real = append(m.real, r)
	m.logical[r] = len(m.real)
	return len(m.real)
}
func (m *ids) log(r uint32) int {
	if l, ok := m.logical[r]; ok {
		return l
	}
	return -1000
}
func (m *ids) rea(l uint32) uint32 {
	if int(l) <= len(m.real) && l > 0 {
		return m.real[l-1]
	}
	return 900000 + l
}
func (m *ids) all(l []uint32) []uint32 {
	r := []uint32{}
	for _, x := range l {
		r = append(r, m.rea(x))
	}
	return r
}

type subRun struct {
	e       *env
	subs    *ids
	items   *ids
	vars    map[string]*server.VariableNode
	obj     *server.ObjectNode
	ops     map[int]map[uint32]subOp // session -> rid
	isEvent map[uint32]bool
}

func (x *subRun) nodeID(n string) ua.NodeID { return ua.NewNodeIDString(x.e.ns, n) }

func (x *subRun) filter(it subItem, event bool) ua.ExtensionObject {
	if event {
		return ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{ua.BaseEventSelectClauses[7]}}
	}
	f := ua.DataChangeFilter{Trigger: trigs[it.Trig]}
	if it.Db > 0 {
		f.DeadbandType = uint32(ua.DeadbandTypeAbsolute)
		f.DeadbandValue = it.Db
	}
	return f
}

func (x *subRun) request(o subOp) any {
	e := x.e
	h := hdr(e.sess[o.S].token, o.Rid*7+3, o.Hint)
	switch o.Op {
	case "csub":
		return &ua.CreateSubscriptionRequest{RequestHeader: h, RequestedPublishingInterval: o.Pi, RequestedLifetimeCount: o.Lt, RequestedMaxKeepAliveCount: o.Ka, MaxNotificationsPerPublish: o.MaxN, PublishingEnabled: o.En, Priority: o.Prio}
	case "msub":
		return &ua.ModifySubscriptionRequest{RequestHeader: h, SubscriptionID: x.subs.rea(o.Sub), RequestedPublishingInterval: o.Pi, RequestedLifetimeCount: o.Lt, RequestedMaxKeepAliveCount: o.Ka, MaxNotificationsPerPublish: o.MaxN, Priority: o.Prio}
	case "setpub":
		return &ua.SetPublishingModeRequest{RequestHeader: h, PublishingEnabled: o.En, SubscriptionIDs: x.subs.all(o.Subs)}
	case "delsubs":
		return &ua.DeleteSubscriptionsRequest{RequestHeader: h, SubscriptionIDs: x.subs.all(o.Subs)}
	case "pub":
		r := &ua.PublishRequest{RequestHeader: h}
		for _, a := range o.Acks {
			r.SubscriptionAcknowledgements = append(r.SubscriptionAcknowledgements, ua.SubscriptionAcknowledgement{SubscriptionID: x.subs.rea(a.Sub), SequenceNumber: a.Seq})
		}
		return r
	case "repub":
		return &ua.RepublishRequest{RequestHeader: h, SubscriptionID: x.subs.rea(o.Sub), RetransmitSequenceNumber: o.Seq}
	case "resend":
		return &ua.CallRequest{RequestHeader: h, MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerResendData, InputArguments: []ua.Variant{x.subs.rea(o.Sub)}}}}
	case "getitems":
		return &ua.CallRequest{RequestHeader: h, MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerGetMonitoredItems, InputArguments: []ua.Variant{x.subs.rea(o.Sub)}}}}
	case "citems":
		r := &ua.CreateMonitoredItemsRequest{RequestHeader: h, SubscriptionID: x.subs.rea(o.Sub), TimestampsToReturn: ttrs[o.Ttr]}
		for _, it := range o.Items {
			rv := ua.ReadValueID{NodeID: x.nodeID(it.Node), AttributeID: ua.AttributeIDValue}
			if it.Node == "ev" {
				rv.AttributeID = ua.AttributeIDEventNotifier
			}
			r.ItemsToCreate = append(r.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: rv, MonitoringMode: modes[it.Mode],
				RequestedParameters: ua.MonitoringParameters{ClientHandle: it.H, SamplingInterval: it.Si, QueueSize: it.Qs, DiscardOldest: it.Disc, Filter: x.filter(it, it.Node == "ev")}})
		}
		return r
	case "mitems":
		r := &ua.ModifyMonitoredItemsRequest{RequestHeader: h, SubscriptionID: x.subs.rea(o.Sub), TimestampsToReturn: ua.TimestampsToReturnBoth}
		for _, it := range o.Items {
			r.ItemsToModify = append(r.ItemsToModify, ua.MonitoredItemModifyRequest{MonitoredItemID: x.items.rea(it.ID),
				RequestedParameters: ua.MonitoringParameters{ClientHandle: it.H, SamplingInterval: it.Si, QueueSize: it.Qs, DiscardOldest: it.Disc, Filter: x.filter(it, x.isEvent[it.ID])}})
		}
		return r
	case "setmode":
		return &ua.SetMonitoringModeRequest{RequestHeader: h, SubscriptionID: x.subs.rea(o.Sub), MonitoringMode: modes[o.Mode], MonitoredItemIDs: x.items.all(o.Ids)}
	case "delitems":
		return &ua.DeleteMonitoredItemsRequest{RequestHeader: h, SubscriptionID: x.subs.rea(o.Sub), MonitoredItemIDs: x.items.all(o.Ids)}
	case "settrig":
		return &ua.SetTriggeringRequest{RequestHeader: h, SubscriptionID: x.subs.rea(o.Sub), TriggeringItemID: x.items.rea(o.Item), LinksToAdd: x.items.all(o.Add), LinksToRemove: x.items.all(o.Rem)}
	}
	panic("unknown op " + o.Op)
}

func (x *subRun) stamp(t time.Time) int64 {
	if t.IsZero() || t.Year() < 1700 {
		return -1
	}
	return t.Sub(x.e.t0).Milliseconds()
}

// notification renders notification data as a list sorted by client handle, values in order.
func (x *subRun) notification(nd []ua.ExtensionObject) (out []obj, chg string) {
	chg = "none"
	type ent struct {
		kind string
		vs   []obj
	}
	by := map[uint32]*ent{}
	get := func(h uint32, kind string) *ent {
		if by[h] == nil {
			by[h] = &ent{kind: kind}
		}
		return by[h]
	}
	for _, d := range nd {
		switch d := d.(type) {
		case ua.DataChangeNotification:
			for _, m := range d.MonitoredItems {
				v, _ := m.Value.Value.(int32)
				sc := uint32(m.Value.StatusCode)
				e := get(m.ClientHandle, "data")
				e.vs = append(e.vs, obj{"v": v, "sc": code(ua.StatusCode(sc &^ 0xFFFF)), "ov": sc&0x480 == 0x480, "src": x.stamp(m.Value.SourceTimestamp), "srv": x.stamp(m.Value.ServerTimestamp)})
			}
		case ua.EventNotificationList:
			for _, m := range d.Events {
				v := int32(-1)
				if len(m.EventFields) == 1 {
					if s, ok := m.EventFields[0].(uint16); ok {
						v = int32(s)
					}
				}
				e := get(m.ClientHandle, "event")
				e.vs = append(e.vs, obj{"v": v, "sc": "", "ov": false, "src": -1, "srv": -1})
			}
		case ua.StatusChangeNotification:
			chg = code(d.Status)
		default:
			chg = fmt.Sprintf("%T", d)
		}
	}
	out = []obj{}
	var hs []int
	for h := range by {
		hs = append(hs, int(h))
	}
	sort.Ints(hs)
	for _, h := range hs {
		out = append(out, obj{"h": h, "kind": by[uint32(h)].kind, "vs": by[uint32(h)].vs})
	}
	return out, chg
}

func (x *subRun) render(s *sess, r Rx) obj {
	if r.Kind != "MSG" {
		return obj{"k": "bad", "s": s.n, "what": r.Kind, "err": r.Err, "code": r.Code}
	}
	rid := r.ReqID - 1000
	o, ok := x.ops[s.n][rid]
	if !ok {
		return obj{"k": "unsolicited", "s": s.n, "rid": rid, "name": r.Name}
	}
	b := obj{"k": o.Op, "s": s.n, "rid": rid}
	check := func(h ua.ResponseHeader) {
		if h.RequestHandle != rid*7+3 {
			b["handle"] = h.RequestHandle
		}
		if h.ServiceResult != ua.Good {
			b["service"] = code(h.ServiceResult)
		}
	}
	switch m := r.Msg.(type) {
	case *ua.ServiceFault:
		b["k"] = "fault"
		b["code"] = code(m.ServiceResult)
		m.ServiceResult = ua.Good
		check(m.ResponseHeader)
	case *ua.CreateSubscriptionResponse:
		check(m.ResponseHeader)
		b["sub"] = x.subs.add(m.SubscriptionID)
		b["pi"], b["lt"], b["ka"] = m.RevisedPublishingInterval, m.RevisedLifetimeCount, m.RevisedMaxKeepAliveCount
	case *ua.ModifySubscriptionResponse:
		check(m.ResponseHeader)
		b["pi"], b["lt"], b["ka"] = m.RevisedPublishingInterval, m.RevisedLifetimeCount, m.RevisedMaxKeepAliveCount
	case *ua.SetPublishingModeResponse:
		check(m.ResponseHeader)
		b["res"] = codes(m.Results)
	case *ua.DeleteSubscriptionsResponse:
		check(m.ResponseHeader)
		b["res"] = codes(m.Results)
	case *ua.PublishResponse:
		check(m.ResponseHeader)
		b["sub"] = x.subs.log(m.SubscriptionID)
		b["seq"] = m.NotificationMessage.SequenceNumber
		b["pt"] = x.stamp(m.NotificationMessage.PublishTime)
		b["nd"], b["chg"] = x.notification(m.NotificationMessage.NotificationData)
		b["more"] = m.MoreNotifications
		av := []uint32{}
		b["avail"] = append(av, m.AvailableSequenceNumbers...)
		b["res"] = codes(m.Results)
	case *ua.RepublishResponse:
		check(m.ResponseHeader)
		b["seq"] = m.NotificationMessage.SequenceNumber
		b["pt"] = x.stamp(m.NotificationMessage.PublishTime)
		nd, chg := x.notification(m.NotificationMessage.NotificationData)
		b["nd"] = nd
		if chg != "none" {
			b["chg"] = chg
		}
	case *ua.CallResponse:
		check(m.ResponseHeader)
		if len(m.Results) != 1 {
			b["n"] = len(m.Results)
			break
		}
		c := m.Results[0]
		if o.Op == "resend" {
			b["res"] = []string{code(c.StatusCode)}
			break
		}
		b["res"] = code(c.StatusCode)
		its := []obj{}
		if c.StatusCode == ua.Good && len(c.OutputArguments) == 2 {
			sv, _ := c.OutputArguments[0].([]uint32)
			ch, _ := c.OutputArguments[1].([]uint32)
			for i := range sv {
				h := uint32(0)
				if i < len(ch) {
					h = ch[i]
				}
				its = append(its, obj{"id": x.items.log(sv[i]), "h": h})
			}
			sort.Slice(its, func(i, j int) bool { return its[i]["id"].(int) < its[j]["id"].(int) })
		}
		b["items"] = its
	case *ua.CreateMonitoredItemsResponse:
		check(m.ResponseHeader)
		res := []obj{}
		for i, c := range m.Results {
			id := 0
			if c.StatusCode == ua.Good {
				id = x.items.add(c.MonitoredItemID)
				if i < len(o.Items) && o.Items[i].Node == "ev" {
					x.isEvent[uint32(id)] = true
				}
			}
			res = append(res, obj{"code": code(c.StatusCode), "id": id, "si": c.RevisedSamplingInterval, "qs": c.RevisedQueueSize})
		}
		b["res"] = res
	case *ua.ModifyMonitoredItemsResponse:
		check(m.ResponseHeader)
		res := []obj{}
		for _, c := range m.Results {
			res = append(res, obj{"code": code(c.StatusCode), "si": c.RevisedSamplingInterval, "qs": c.RevisedQueueSize})
		}
		b["res"] = res
	case *ua.SetMonitoringModeResponse:
		check(m.ResponseHeader)
		b["res"] = codes(m.Results)
	case *ua.DeleteMonitoredItemsResponse:
		check(m.ResponseHeader)
		b["res"] = codes(m.Results)
	case *ua.SetTriggeringResponse:
		check(m.ResponseHeader)
		b["add"], b["rem"] = codes(m.AddResults), codes(m.RemoveResults)
	default:
		b["k"] = "unexpected"
		b["name"] = r.Name
	}
	return b
}

func (x *subRun) flush() {
	for _, c := range x.e.collect() {
		x.e.rec.emit(obj{"e": "o", "t": c.r.At.Milliseconds(), "o": x.render(c.s, c.r)})
	}
}

func runSub(rec *recorder, c json.RawMessage) {
	var in struct {
		Ops []json.RawMessage
		End int64
	}
	if err := json.Unmarshal(c, &in); err != nil {
		panic(err)
	}
	e := newEnv(rec, server.WithAnonymousIdentity(true), server.WithGetRolesFunc(func(any, string, string) ([]ua.NodeID, error) {
		return []ua.NodeID{ua.ObjectIDWellKnownRoleOperator}, nil
	}))
	x := &subRun{e: e, subs: newIDs(), items: newIDs(), vars: map[string]*server.VariableNode{}, ops: map[int]map[uint32]subOp{1: {}, 2: {}}, isEvent: map[uint32]bool{}}
	now := time.Now()
	for n, ms := range map[string]float64{"n1": 0, "n2": 0, "n3": 300} {
		x.vars[n] = e.variable(n, ua.NewDataValue(int32(0), 0, now, 0, now, 0), ua.DataTypeIDInt32, ua.ValueRankScalar, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite, ms, nil)
	}
	x.obj = server.NewObjectNode(e.srv, x.nodeID("ev"), ua.NewQualifiedName(e.ns, "ev"), ua.NewLocalizedText("ev", "en"), ua.NewLocalizedText("", ""), nil, []ua.Reference{
		{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder)}}, ua.EventNotifierSubscribeToEvents)
	if err := e.srv.NamespaceManager().AddNode(x.obj); err != nil {
		panic(err)
	}
	e.serve()
	for _, d := range []int{100, 125, 200, 300, 500, 1000, 5000, 60000} {
		e.srv.Scheduler().GetPollGroup(time.Duration(d) * time.Millisecond)
	}
	e.session(1)
	e.session(2)
	for _, raw := range in.Ops {
		var o subOp
		if err := json.Unmarshal(raw, &o); err != nil {
			panic(err)
		}
		e.until(o.T)
		x.flush()
		rec.emit(obj{"e": "s", "t": o.T, "o": raw})
		switch o.Op {
		case "setval":
			now := time.Now()
			x.vars[o.Node].SetValue(ua.NewDataValue(o.V, statusByName(o.Sc), now, 0, now, 0))
		case "event":
			e.srv.NamespaceManager().OnEvent(x.obj, &ua.BaseEvent{EventType: ua.ObjectTypeIDBaseEventType, SourceName: "ev", Time: time.Now(), Severity: uint16(o.V)})
		default:
			x.ops[o.S][o.Rid] = o
			e.sess[o.S].p.send(x.request(o), o.Rid+1000)
		}
		synctest.Wait()
		x.flush()
	}
	e.until(in.End)
	x.flush()
	rec.emit(obj{"e": "s", "t": in.End, "o": obj{"op": "end", "t": in.End}})
}
