package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["event"] = runEvent }

type evOperand struct {
	O, T, F string
	V       any
	I       int
}
type evElem struct {
	Op string
	A  []evOperand
}
type evStep struct {
	Op, Node, Mode, Type, Name string
	Where                      []evElem
	Select                     []string
	Judged, Old, Ok            bool
	Item, Sev, First, Count    int
	Got                        [][]int
}

var evTypes = map[string]ua.NodeID{"base": ua.NewNodeIDNumeric(0, 2041), "system": ua.NewNodeIDNumeric(0, 2130), "device": ua.NewNodeIDNumeric(0, 2131), "audit": ua.NewNodeIDNumeric(0, 2052), "condition": ua.NewNodeIDNumeric(0, 2782)}
var evModes = map[string]ua.MonitoringMode{"disabled": ua.MonitoringModeDisabled, "sampling": ua.MonitoringModeSampling, "reporting": ua.MonitoringModeReporting}
var evOps = map[string]ua.FilterOperator{"Equals": ua.FilterOperatorEquals, "OfType": ua.FilterOperatorOfType, "And": ua.FilterOperatorAnd, "Not": ua.FilterOperatorNot, "InList": ua.FilterOperatorInList, "Like": ua.FilterOperatorLike}

type evWorld struct {
	e     *env
	s     *sess
	nodes map[string]*server.ObjectNode
	sub   uint32
	ids   []uint32
	sel   [][]string
	evs   []*ua.BaseEvent
	pubs  int
	base  time.Time
	notes []string
}

func (w *evWorld) note(f string, a ...any) { w.notes = append(w.notes, fmt.Sprintf(f, a...)) }

func evField(f string) ua.SimpleAttributeOperand {
	return ua.SimpleAttributeOperand{TypeDefinitionID: ua.NewNodeIDNumeric(0, 2041), BrowsePath: []ua.QualifiedName{{NamespaceIndex: 0, Name: f}}, AttributeID: ua.AttributeIDValue}
}

func (w *evWorld) evTime(k int) time.Time { return w.base.Add(time.Duration(k) * time.Microsecond) }

func (w *evWorld) filter(st evStep) ua.EventFilter {
	f := ua.EventFilter{}
	for _, s := range st.Select {
		f.SelectClauses = append(f.SelectClauses, evField(s))
	}
	for _, el := range st.Where {
		x := ua.ContentFilterElement{FilterOperator: evOps[el.Op]}
		for _, a := range el.A {
			var o ua.ExtensionObject
			switch a.O {
			case "lit":
				var v ua.Variant
				switch a.T {
				case "node":
					v = evTypes[a.V.(string)]
				case "str":
					v = a.V.(string)
				case "u16":
					v = uint16(a.V.(float64))
				case "bool":
					v = a.V.(bool)
				case "time":
					v = w.evTime(int(a.V.(float64)))
				case "arr":
					v = []int32{1, 2}
				case "dv":
					v = []ua.DataValue{{Value: int32(1)}}
				case "ext":
					v = ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{evField("Time")}}
				}
				o = ua.LiteralOperand{Value: v}
			case "attr":
				o = evField(a.F)
			case "elem":
				o = ua.ElementOperand{Index: uint32(a.I - 1)}
			case "path":
				o = ua.AttributeOperand{NodeID: ua.ObjectIDServer, AttributeID: 13}
			case "unknown":
				o = evFieldOf("NoSuchField")
			}
			x.FilterOperands = append(x.FilterOperands, o)
		}
		f.WhereClause.Elements = append(f.WhereClause.Elements, x)
	}
	return f
}

func evFieldOf(n string) ua.SimpleAttributeOperand {
	return ua.SimpleAttributeOperand{TypeDefinitionID: ua.NewNodeIDNumeric(0, 2782), BrowsePath: []ua.QualifiedName{{NamespaceIndex: 3, Name: n}}, AttributeID: 1, IndexRange: "x"}
}

func (w *evWorld) head() ua.RequestHeader { return hdr(w.s.token, 1, 0) }

func (w *evWorld) params(i int, st evStep) ua.MonitoringParameters {
	return ua.MonitoringParameters{ClientHandle: uint32(i), Filter: w.filter(st), QueueSize: 10, DiscardOldest: st.Old}
}

func (w *evWorld) publish() {
	for ; w.pubs < 4; w.pubs++ {
		w.s.p.send(&ua.PublishRequest{RequestHeader: w.head()}, w.s.p.req())
	}
	synctest.Wait()
}

// call sends a request and returns its answer; nothing else may arrive.
func (w *evWorld) call(msg any) any {
	id := w.s.p.req()
	w.s.p.send(msg, id)
	synctest.Wait()
	rx := w.s.p.take()
	if len(rx) == 1 && rx[0].Kind == "MSG" && rx[0].ReqID == id {
		return rx[0].Msg
	}
	w.note("%T: %d messages instead of the answer", msg, len(rx))
	if len(rx) > 0 && rx[0].Kind != "MSG" {
		w.note("the connection got %s %s", rx[0].Kind, rx[0].Err)
	}
	return nil
}

func (w *evWorld) value(f string, e *ua.BaseEvent) ua.Variant {
	switch f {
	case "EventId":
		return e.EventID
	case "EventType":
		return e.EventType
	case "SourceNode":
		return e.SourceNode
	case "SourceName":
		return e.SourceName
	case "Time":
		return e.Time
	case "Message":
		return e.Message
	}
	return e.Severity
}

func (w *evWorld) step(st evStep, conf evConf) {
	switch st.Op {
	case "create":
		i := len(w.ids) + 1
		r, _ := w.call(&ua.CreateMonitoredItemsRequest{RequestHeader: w.head(), SubscriptionID: w.sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
			ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: w.nodes[st.Node].NodeID(), AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: evModes[st.Mode], RequestedParameters: w.params(i, st)}}}).(*ua.CreateMonitoredItemsResponse)
		if r == nil || len(r.Results) != 1 {
			w.note("no result")
			return
		}
		if sc := r.Results[0].StatusCode; st.Judged && sc.IsGood() != st.Ok {
			w.note("%s, want ok: %v", code(sc), st.Ok)
		} else if st.Ok {
			// a filter without meaning may be refused
			w.ids = append(w.ids, r.Results[0].MonitoredItemID)
			w.sel = append(w.sel, st.Select)
		}
	case "modify":
		r, _ := w.call(&ua.ModifyMonitoredItemsRequest{RequestHeader: w.head(), SubscriptionID: w.sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
			ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: w.ids[st.Item-1], RequestedParameters: w.params(st.Item, st)}}}).(*ua.ModifyMonitoredItemsResponse)
		if r == nil || len(r.Results) != 1 || st.Judged && w.ids[st.Item-1] != 0 && r.Results[0].StatusCode != ua.Good {
			w.note("%+v", r)
		}
		w.sel[st.Item-1] = st.Select
	case "mode":
		r, _ := w.call(&ua.SetMonitoringModeRequest{RequestHeader: w.head(), SubscriptionID: w.sub, MonitoringMode: evModes[st.Mode], MonitoredItemIDs: []uint32{w.ids[st.Item-1]}}).(*ua.SetMonitoringModeResponse)
		if r == nil || len(r.Results) != 1 || w.ids[st.Item-1] != 0 && r.Results[0] != ua.Good {
			w.note("%+v", r)
		}
	case "delete":
		r, _ := w.call(&ua.DeleteMonitoredItemsRequest{RequestHeader: w.head(), SubscriptionID: w.sub, MonitoredItemIDs: []uint32{w.ids[st.Item-1]}}).(*ua.DeleteMonitoredItemsResponse)
		if r == nil || len(r.Results) != 1 || w.ids[st.Item-1] != 0 && r.Results[0] != ua.Good {
			w.note("%+v", r)
		}
	case "raise":
		for k := 0; k < st.Count; k++ {
			n := st.First + k
			e := &ua.BaseEvent{EventID: ua.ByteString(fmt.Sprintf("event%d", n)), EventType: evTypes[st.Type], SourceNode: w.nodes[st.Node].NodeID(), SourceName: st.Name,
				Time: w.evTime(n % 5).Local(), ReceiveTime: time.Now(), Message: ua.NewLocalizedText(fmt.Sprintf("message %d", n), "en"), Severity: uint16(st.Sev)}
			w.evs = append(w.evs, e)
			w.nodes[st.Node].OnEvent(e)
		}
		synctest.Wait()
	case "deliver":
		w.deliver(st, conf)
	case "storm":
		w.storm()
	}
}

// storm raises events while an item changes.
func (w *evWorld) storm() {
	n := w.nodes["storm"]
	r, _ := w.call(&ua.CreateMonitoredItemsRequest{RequestHeader: w.head(), SubscriptionID: w.sub,
		ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: n.NodeID(), AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
			RequestedParameters: ua.MonitoringParameters{ClientHandle: 9999, Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{evField("EventId")}}}}}}).(*ua.CreateMonitoredItemsResponse)
	if r == nil || r.Results[0].StatusCode != ua.Good {
		w.note("storm: %+v", r)
		return
	}
	item := r.Results[0].MonitoredItemID
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				n.OnEvent(&ua.BaseEvent{EventID: "storm", EventType: evTypes["base"]})
			}
		}()
	}
	for k := 0; k < 60; k++ {
		w.s.p.send(&ua.SetMonitoringModeRequest{RequestHeader: w.head(), SubscriptionID: w.sub, MonitoringMode: ua.MonitoringMode(k % 3), MonitoredItemIDs: []uint32{item}}, w.s.p.req())
	}
	w.s.p.send(&ua.DeleteMonitoredItemsRequest{RequestHeader: w.head(), SubscriptionID: w.sub, MonitoredItemIDs: []uint32{item}}, w.s.p.req())
	wg.Wait()
	synctest.Wait()
	if n := len(w.s.p.take()); n != 61 {
		w.note("storm: %d answers to 61 requests", n)
	}
}

// drain lets the cycles pass until nothing comes; it returns what came, per item.
func (w *evWorld) drain() map[uint32][][]ua.Variant {
	got := map[uint32][][]ua.Variant{}
	for idle := 0; idle < 2; {
		w.publish()
		time.Sleep(100 * time.Millisecond)
		synctest.Wait()
		idle++
		for _, r := range w.s.p.take() {
			m, ok := r.Msg.(*ua.PublishResponse)
			if !ok {
				w.note("%s %s", r.Kind, r.Name)
				return got
			}
			w.pubs--
			for _, d := range m.NotificationMessage.NotificationData {
				l, ok := d.(ua.EventNotificationList)
				if !ok {
					w.note("a %T", d)
					continue
				}
				for _, ev := range l.Events {
					idle = 0
					got[ev.ClientHandle] = append(got[ev.ClientHandle], ev.EventFields)
				}
			}
		}
	}
	return got
}

func (w *evWorld) deliver(st evStep, conf evConf) {
	got := w.drain()
	for i, want := range st.Got {
		h := uint32(i + 1)
		q := got[h]
		if conf.unjudged[i+1] {
			continue
		}
		if len(q) != len(want) {
			w.note("item %d: %d events, want %d", h, len(q), len(want))
			continue
		}
		for k, n := range want {
			e := w.evs[n-1]
			if len(q[k]) != len(w.sel[i]) {
				w.note("item %d: %d fields, want %d", h, len(q[k]), len(w.sel[i]))
				break
			}
			for j, f := range w.sel[i] {
				v := w.value(f, e)
				if t, ok := v.(time.Time); ok {
					if g, ok := q[k][j].(time.Time); ok && g.Equal(t) {
						continue
					}
				}
				if !reflect.DeepEqual(q[k][j], v) {
					w.note("item %d: field %s of event %d in place %d is %v, want %v", h, f, n, k+1, q[k][j], v)
					return
				}
			}
		}
	}
}

type evConf struct {
	Max            uint32
	Notifier, Perm bool
	unjudged       map[int]bool
}

func runEvent(rec *recorder, raw json.RawMessage) {
	var cs struct {
		Conf  evConf
		Steps []evStep
	}
	if err := json.Unmarshal(raw, &cs); err != nil {
		panic(err)
	}
	e := newEnv(rec, server.WithAnonymousIdentity(true))
	w := &evWorld{e: e, nodes: map[string]*server.ObjectNode{}, base: time.Now().UTC().Truncate(time.Hour)}
	w.nodes["server"], _ = e.srv.NamespaceManager().FindObject(ua.ObjectIDServer)
	var notifier byte
	if cs.Conf.Notifier {
		notifier = ua.EventNotifierSubscribeToEvents
	}
	perms := []ua.RolePermissionType{{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: ua.PermissionTypeBrowse | ua.PermissionTypeRead}}
	if cs.Conf.Perm {
		perms[0].Permissions |= ua.PermissionTypeReceiveEvents
	}
	add := func(name string, perms []ua.RolePermissionType, notifier byte) {
		w.nodes[name] = server.NewObjectNode(e.srv, ua.NewNodeIDString(e.ns, name), ua.NewQualifiedName(e.ns, name), ua.NewLocalizedText(name, ""), ua.NewLocalizedText("", ""), perms,
			[]ua.Reference{ua.NewReference(ua.ReferenceTypeIDHasTypeDefinition, false, ua.NewExpandedNodeID(ua.ObjectTypeIDBaseObjectType)), ua.NewReference(ua.ReferenceTypeIDOrganizes, true, ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder))}, notifier)
		if err := e.srv.NamespaceManager().AddNode(w.nodes[name]); err != nil {
			panic(err)
		}
	}
	add("obj", perms, notifier)
	add("storm", nil, ua.EventNotifierSubscribeToEvents)
	e.serve()
	w.s = e.session(1)
	r, ok := w.s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: w.head(), RequestedPublishingInterval: 100, RequestedLifetimeCount: 100000, RequestedMaxKeepAliveCount: 5, MaxNotificationsPerPublish: cs.Conf.Max, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse)
	if !ok {
		panic("setup: no subscription")
	}
	w.sub = r.SubscriptionID
	cs.Conf.unjudged = map[int]bool{}
	for i, st := range cs.Steps {
		if st.Op == "create" && st.Ok && !st.Judged {
			cs.Conf.unjudged[len(w.ids)+1] = true
		}
		if st.Op == "modify" && !st.Judged {
			cs.Conf.unjudged[st.Item] = true
		}
		w.step(st, cs.Conf)
		rec.emit(obj{"i": i, "op": st.Op, "notes": w.notes})
		if len(w.notes) > 0 {
			return
		}
	}
}
