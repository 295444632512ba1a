package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

func init() { kinds["limit"] = runLimit }

type lStep struct {
	Op, Svc, Fault, Kind, Code string
	Conf                       map[string]int
	N, S, X                    int
	D, Rel                     bool
}

var lArrays = []struct {
	typ ua.NodeID
	one any
}{
	{ua.DataTypeIDBoolean, true}, {ua.DataTypeIDSByte, int8(1)}, {ua.DataTypeIDByte, uint8(1)}, {ua.DataTypeIDInt16, int16(1)}, {ua.DataTypeIDUInt16, uint16(1)},
	{ua.DataTypeIDInt32, int32(1)}, {ua.DataTypeIDUInt32, uint32(1)}, {ua.DataTypeIDInt64, int64(1)}, {ua.DataTypeIDUInt64, uint64(1)}, {ua.DataTypeIDFloat, float32(1)},
	{ua.DataTypeIDDouble, float64(1)}, {ua.DataTypeIDString, "a"}, {ua.DataTypeIDDateTime, time.Unix(1e9, 0)}, {ua.DataTypeIDGUID, uuid.UUID{1}}, {ua.DataTypeIDByteString, ua.ByteString("a")},
	{ua.DataTypeIDXMLElement, ua.XMLElement("a")}, {ua.DataTypeIDStatusCode, ua.BadTimeout}, {ua.DataTypeIDQualifiedName, ua.NewQualifiedName(1, "a")}, {ua.DataTypeIDLocalizedText, ua.NewLocalizedText("a", "en")},
}

func runLimit(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []lStep }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	cf := c.Steps[0].Conf
	u := func(n string) uint32 { return uint32(cf[n]) }
	caps := ua.NewServerCapabilities()
	caps.MaxStringLength, caps.MaxByteStringLength, caps.MaxArrayLength, caps.MaxBrowseContinuationPoints = u("String"), u("ByteString"), u("Array"), uint16(cf["Browses"])
	caps.MaxHistoryContinuationPoints, caps.MaxQueryContinuationPoints, caps.MinSupportedSampleRate = 21, 22, 23.5
	ol := caps.OperationLimits
	ol.MaxNodesPerRead, ol.MaxNodesPerWrite, ol.MaxNodesPerHistoryReadData, ol.MaxNodesPerHistoryReadEvents = u("Read"), u("Write"), u("HistoryReadData"), u("HistoryReadEvents")
	ol.MaxNodesPerMethodCall, ol.MaxNodesPerBrowse, ol.MaxNodesPerRegisterNodes, ol.MaxNodesPerTranslateBrowsePathsToNodeIds = u("MethodCall"), u("Browse"), u("RegisterNodes"), u("Translate")
	ol.MaxMonitoredItemsPerCall, ol.MaxNodesPerNodeManagement, ol.MaxNodesPerHistoryUpdateData, ol.MaxNodesPerHistoryUpdateEvents = u("MonitoredItems"), 31, 32, 33
	h := &historian{log: map[ua.NodeID][]ua.DataValue{}}
	e := newEnv(rec, server.WithAnonymousIdentity(true), server.WithServerCapabilities(caps), server.WithHistorian(h), server.WithMaxSessionCount(u("Sessions")), server.WithMaxSubscriptionCount(u("Subscriptions")))
	all := ua.AccessLevelsCurrentRead | ua.AccessLevelsCurrentWrite
	perms := []ua.RolePermissionType{{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: 0xffff}}
	val := func(v any) ua.DataValue { return ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0) }
	e.variable("v", val(int32(0)), ua.DataTypeIDInt32, -1, all, 0, perms)
	e.variable("String", val(""), ua.DataTypeIDString, -1, all, 0, perms)
	e.variable("ByteString", val(ua.ByteString("")), ua.DataTypeIDByteString, -1, all, 0, perms)
	for i, a := range lArrays {
		e.variable(fmt.Sprintf("Array%d", i), val(reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(a.one)), 0, 0).Interface()), a.typ, 1, all, 0, perms)
	}
	folder := ua.NewNodeIDString(e.ns, "folder")
	kids := []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder)}}
	for i := 0; i < 3; i++ {
		kids = append(kids, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetID: ua.NewExpandedNodeID(ua.NewNodeIDString(e.ns, fmt.Sprintf("Array%d", i)))})
	}
	if err := e.srv.NamespaceManager().AddNode(server.NewObjectNode(e.srv, folder, ua.NewQualifiedName(e.ns, "folder"), ua.NewLocalizedText("folder", "en"), ua.NewLocalizedText("", ""), perms, kids, 0)); err != nil {
		panic(err)
	}
	e.serve()
	ss, subs := map[int]*sess{1: e.session(1)}, map[int]uint32{}
	cps := map[int][]ua.ByteString{}
	sub := func(s int) any {
		r, _ := ss[s].p.ask(&ua.CreateSubscriptionRequest{RequestHeader: hdr(ss[s].token, 5, 0), RequestedPublishingInterval: 3600000, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1000, PublishingEnabled: true})
		return r
	}
	subs[2] = sub(1).(*ua.CreateSubscriptionResponse).SubscriptionID
	id := ua.NewNodeIDString(e.ns, "v")
	for i, st := range c.Steps {
		e.until(int64(i * 50))
		notes := []string{}
		note := func(f string, a ...any) { notes = append(notes, fmt.Sprintf(f, a...)) }
		m := ss[1]
		// the answer is a fault, or a good response with n results
		judge := func(a any, fault string, n int) {
			if fault != "" {
				if f, ok := a.(*ua.ServiceFault); !ok || code(f.ServiceResult) != fault {
					note("%+v: answered with %T %s, want %s", st, a, rxResult(a), fault)
				}
				return
			}
			if r := rxResult(a); r != "Good" {
				note("%+v: answered with %T %s", st, a, r)
			} else if n >= 0 {
				if l := reflect.ValueOf(a).Elem().FieldByName(map[bool]string{true: "RegisteredNodeIDs", false: "Results"}[st.Svc == "register"]); l.Len() != n {
					note("%+v: %d results", st, l.Len())
				}
			}
		}
		switch st.Op {
		case "announce":
			for _, x := range []struct {
				id   ua.NodeID
				want any
			}{
				{ua.VariableIDServerServerCapabilitiesMaxStringLength, u("String")}, {ua.VariableIDServerServerCapabilitiesMaxByteStringLength, u("ByteString")}, {ua.VariableIDServerServerCapabilitiesMaxArrayLength, u("Array")},
				{ua.VariableIDServerServerCapabilitiesMaxBrowseContinuationPoints, uint16(cf["Browses"])}, {ua.VariableIDServerServerCapabilitiesMaxHistoryContinuationPoints, uint16(21)}, {ua.VariableIDServerServerCapabilitiesMaxQueryContinuationPoints, uint16(22)},
				{ua.VariableIDServerServerCapabilitiesMinSupportedSampleRate, 23.5},
				{ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRead, u("Read")}, {ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerWrite, u("Write")},
				{ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryReadData, u("HistoryReadData")}, {ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryReadEvents, u("HistoryReadEvents")},
				{ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerMethodCall, u("MethodCall")}, {ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerBrowse, u("Browse")},
				{ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRegisterNodes, u("RegisterNodes")}, {ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerTranslateBrowsePathsToNodeIDs, u("Translate")},
				{ua.VariableIDServerServerCapabilitiesOperationLimitsMaxMonitoredItemsPerCall, u("MonitoredItems")}, {ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerNodeManagement, uint32(31)},
				{ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryUpdateData, uint32(32)}, {ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerHistoryUpdateEvents, uint32(33)},
				{ua.VariableIDHistoryServerCapabilitiesMaxReturnDataValues, uint32(0)}, {ua.VariableIDHistoryServerCapabilitiesMaxReturnEventValues, uint32(0)},
			} {
				a, _ := m.p.ask(&ua.ReadRequest{RequestHeader: hdr(m.token, 5, 0), NodesToRead: []ua.ReadValueID{{NodeID: x.id, AttributeID: ua.AttributeIDValue}}})
				if r, ok := a.(*ua.ReadResponse); !ok || len(r.Results) != 1 || r.Results[0].StatusCode.IsBad() || !reflect.DeepEqual(r.Results[0].Value, x.want) {
					note("announced %v: %+v, want %v", x.id, a, x.want)
				}
			}
		case "ops":
			n, hd := st.N, hdr(m.token, 5, 0)
			var q any
			switch st.Svc {
			case "read":
				q = &ua.ReadRequest{RequestHeader: hd, NodesToRead: lRep(n, ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue})}
			case "write":
				q = &ua.WriteRequest{RequestHeader: hd, NodesToWrite: lRep(n, ua.WriteValue{NodeID: id, AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(int32(i), 0, time.Time{}, 0, time.Time{}, 0)})}
			case "histdata":
				q = &ua.HistoryReadRequest{RequestHeader: hd, HistoryReadDetails: ua.ReadRawModifiedDetails{StartTime: e.t0, EndTime: e.t0}, TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: lRep(n, ua.HistoryReadValueID{NodeID: id})}
			case "histevent":
				q = &ua.HistoryReadRequest{RequestHeader: hd, HistoryReadDetails: ua.ReadEventDetails{StartTime: e.t0, EndTime: e.t0, Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{}}}, TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: lRep(n, ua.HistoryReadValueID{NodeID: ua.ObjectIDServer})}
			case "call":
				q = &ua.CallRequest{RequestHeader: hd, MethodsToCall: lRep(n, ua.CallMethodRequest{ObjectID: ua.ObjectIDServer, MethodID: ua.NewNodeIDString(e.ns, "none")})}
			case "browse":
				q = &ua.BrowseRequest{RequestHeader: hd, NodesToBrowse: lRep(n, ua.BrowseDescription{NodeID: folder, BrowseDirection: ua.BrowseDirectionBoth, ResultMask: 63})}
			case "browsenext":
				q = &ua.BrowseNextRequest{RequestHeader: hd, ReleaseContinuationPoints: i%2 == 0, ContinuationPoints: lRep(n, ua.ByteString("????"))}
			case "register":
				q = &ua.RegisterNodesRequest{RequestHeader: hd, NodesToRegister: lRep(n, ua.NodeID(id))}
			case "unregister":
				a, _ := m.p.ask(&ua.UnregisterNodesRequest{RequestHeader: hd, NodesToUnregister: lRep(n, ua.NodeID(id))})
				judge(a, st.Fault, -1)
			case "translate":
				q = &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: hd, BrowsePaths: lRep(n, ua.BrowsePath{StartingNode: ua.ObjectIDObjectsFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.NewQualifiedName(e.ns, "v")}}}})}
			case "create":
				q = &ua.CreateMonitoredItemsRequest{RequestHeader: hd, SubscriptionID: subs[2], ItemsToCreate: lRep(n, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeDisabled, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 3600000, QueueSize: 1}})}
			case "modify":
				q = &ua.ModifyMonitoredItemsRequest{RequestHeader: hd, SubscriptionID: subs[2], ItemsToModify: lRep(n, ua.MonitoredItemModifyRequest{MonitoredItemID: 4000000})}
			case "setmode":
				q = &ua.SetMonitoringModeRequest{RequestHeader: hd, SubscriptionID: subs[2], MonitoringMode: ua.MonitoringModeSampling, MonitoredItemIDs: lRep(n, uint32(4000000))}
			case "delete":
				q = &ua.DeleteMonitoredItemsRequest{RequestHeader: hd, SubscriptionID: subs[2], MonitoredItemIDs: lRep(n, uint32(4000000))}
			}
			if q != nil {
				a, _ := m.p.ask(q)
				judge(a, st.Fault, n)
			}
		case "length":
			var v any
			node := st.Kind
			switch st.Kind {
			case "String":
				v = strings.Repeat("x", st.N)
			case "ByteString":
				v = ua.ByteString(strings.Repeat("x", st.N))
			case "Array":
				k := (i + st.N*7) % len(lArrays)
				node = fmt.Sprintf("Array%d", k)
				s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(lArrays[k].one)), 0, st.N)
				for j := 0; j < st.N; j++ {
					s = reflect.Append(s, reflect.ValueOf(lArrays[k].one))
				}
				v = s.Interface()
			}
			a, _ := m.p.ask(&ua.WriteRequest{RequestHeader: hdr(m.token, 5, 0), NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDString(e.ns, node), AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(v, 0, time.Time{}, 0, time.Time{}, 0)}}})
			if r, ok := a.(*ua.WriteResponse); !ok || len(r.Results) != 1 || code(r.Results[0]) != st.Code {
				note("%+v of %s: %+v", st, node, a)
			}
		case "open":
			p := e.connect()
			a, _ := p.ask(&ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL, SessionName: "s", ClientNonce: ua.ByteString(nonce(32)), RequestedSessionTimeout: 3600000})
			judge(a, st.Fault, -1)
			r, ok := a.(*ua.CreateSessionResponse)
			if !ok || st.Fault != "" {
				break
			}
			a, _ = p.ask(&ua.ActivateSessionRequest{RequestHeader: hdr(r.AuthenticationToken, 0, 0), UserIdentityToken: ua.AnonymousIdentityToken{PolicyID: tokenPolicy(r.ServerEndpoints, p, ua.UserTokenTypeAnonymous).PolicyID}})
			judge(a, "", -1)
			ss[st.S] = &sess{p: p, token: r.AuthenticationToken}
		case "close":
			a, _ := ss[st.S].p.ask(&ua.CloseSessionRequest{RequestHeader: hdr(ss[st.S].token, 5, 0), DeleteSubscriptions: st.D})
			judge(a, "", -1)
		case "sub":
			a := sub(st.S)
			judge(a, st.Fault, -1)
			if r, ok := a.(*ua.CreateSubscriptionResponse); ok {
				subs[st.X] = r.SubscriptionID
			}
		case "delsub":
			a, _ := ss[st.S].p.ask(&ua.DeleteSubscriptionsRequest{RequestHeader: hdr(ss[st.S].token, 5, 0), SubscriptionIDs: []uint32{subs[st.X]}})
			if r, ok := a.(*ua.DeleteSubscriptionsResponse); !ok || len(r.Results) != 1 || r.Results[0] != ua.Good {
				note("%+v: %+v", st, a)
			}
		case "more":
			a, _ := ss[st.S].p.ask(&ua.BrowseRequest{RequestHeader: hdr(ss[st.S].token, 5, 0), RequestedMaxReferencesPerNode: 1, NodesToBrowse: []ua.BrowseDescription{{NodeID: folder, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}})
			r, ok := a.(*ua.BrowseResponse)
			if !ok || len(r.Results) != 1 || code(r.Results[0].StatusCode) != st.Code || st.Code == "Good" && (len(r.Results[0].References) != 1 || r.Results[0].ContinuationPoint == "") {
				note("%+v: %+v", st, a)
			} else if st.Code == "Good" {
				cps[st.S] = append(cps[st.S], r.Results[0].ContinuationPoint)
			}
		case "done":
			cp := cps[st.S][0]
			cps[st.S] = cps[st.S][1:]
			for k := 0; k < 2; k++ {
				a, _ := ss[st.S].p.ask(&ua.BrowseNextRequest{RequestHeader: hdr(ss[st.S].token, 5, 0), ReleaseContinuationPoints: st.Rel, ContinuationPoints: []ua.ByteString{cp}})
				r, ok := a.(*ua.BrowseNextResponse)
				if !ok || len(r.Results) != 1 || r.Results[0].StatusCode != ua.Good {
					note("%+v: %+v", st, a)
					break
				}
				if st.Rel {
					break
				}
				if g := r.Results[0]; len(g.References) != 1 || (g.ContinuationPoint == "") != (k == 1) {
					note("%+v: %d of the other references, then %q", st, len(g.References), g.ContinuationPoint)
				}
				cp = r.Results[0].ContinuationPoint
			}
		}
		rec.emit(obj{"notes": notes})
	}
}

func lRep[T any](n int, v T) []T {
	s := []T{}
	for ; n > 0; n-- {
		s = append(s, v)
	}
	return s
}
