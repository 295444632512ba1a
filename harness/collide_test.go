package harness

import (
	"encoding/json"
	"math/rand"
	"sync"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["collide"] = runCollide }

// runCollide lets many subscriptions reach the end of their lifetime at the very instant of other timers and of
// service calls that name them, and reports how every call was answered.
func runCollide(rec *recorder, c json.RawMessage) {
	var in struct {
		Seed  int64
		Subs  int
		At    int64 // expiry instant, ms
		Ops   []string
		Many  int   // instead: one session with this many subscriptions, all of which expire, then publishes
		Early int64 // the calls are made this many microseconds before the instant
	}
	if err := json.Unmarshal(c, &in); err != nil {
		panic(err)
	}
	rng := rand.New(rand.NewSource(in.Seed))
	e := newEnv(rec, server.WithAnonymousIdentity(true), server.WithServerDiagnostics(in.Seed%2 == 0), server.WithGetRolesFunc(func(any, string, string) ([]ua.NodeID, error) {
		return []ua.NodeID{ua.ObjectIDWellKnownRoleOperator}, nil
	}))
	now := time.Now()
	e.variable("v", ua.NewDataValue(int32(0), 0, now, 0, now, 0), ua.DataTypeIDInt32, ua.ValueRankScalar, ua.AccessLevelsCurrentRead, 0, nil)
	e.serve()
	type call struct {
		s  *sess
		id uint32
		op string
		m  any
	}
	if in.Many > 0 {
		s := e.session(1)
		want := map[uint32]int{}
		for n := 0; n < in.Many; n++ {
			want[s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), RequestedPublishingInterval: 1000, RequestedLifetimeCount: 10, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID] = 0
		}
		e.until(in.At)
		// every one of them is gone by now, and a call that names it is answered at once
		for id := range want {
			s.p.call(&ua.SetPublishingModeRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionIDs: []uint32{id}, PublishingEnabled: true})
		}
		for range want {
			if r, ok := s.p.call(&ua.PublishRequest{RequestHeader: hdr(s.token, 1, 0)}).(*ua.PublishResponse); ok && len(r.NotificationMessage.NotificationData) == 1 {
				if _, ok := r.NotificationMessage.NotificationData[0].(ua.StatusChangeNotification); ok {
					want[r.SubscriptionID]++
				}
			}
		}
		miss := 0
		for _, n := range want {
			if n != 1 {
				miss++
			}
		}
		rec.emit(obj{"op": "alive", "ok": miss == 0})
		return
	}
	var calls []call
	e.until(in.At - 10000)
	for n := 1; n <= in.Subs; n++ {
		s := e.session(n)
		sub := s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), RequestedPublishingInterval: 1000, RequestedLifetimeCount: 10, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID
		it := s.p.call(&ua.CreateMonitoredItemsRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
			ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: ua.NewNodeIDString(e.ns, "v"), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
				RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: 1000, QueueSize: 1}}}}).(*ua.CreateMonitoredItemsResponse).Results[0].MonitoredItemID
		for k := 0; k < 2; k++ {
			op := in.Ops[rng.Intn(len(in.Ops))]
			h := hdr(s.token, 1, 0)
			var m any
			switch op {
			case "modify":
				m = &ua.ModifySubscriptionRequest{RequestHeader: h, SubscriptionID: sub, RequestedPublishingInterval: 1000, RequestedLifetimeCount: 10, RequestedMaxKeepAliveCount: 1}
			case "delete":
				m = &ua.DeleteSubscriptionsRequest{RequestHeader: h, SubscriptionIDs: []uint32{sub}}
			case "ack":
				m = &ua.PublishRequest{RequestHeader: h, SubscriptionAcknowledgements: []ua.SubscriptionAcknowledgement{{SubscriptionID: sub, SequenceNumber: 1}}}
			case "publish":
				m = &ua.PublishRequest{RequestHeader: h}
			case "republish":
				m = &ua.RepublishRequest{RequestHeader: h, SubscriptionID: sub, RetransmitSequenceNumber: 1}
			case "setpub":
				m = &ua.SetPublishingModeRequest{RequestHeader: h, SubscriptionIDs: []uint32{sub}, PublishingEnabled: false}
			case "citems":
				m = &ua.CreateMonitoredItemsRequest{RequestHeader: h, SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
					ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: ua.NewNodeIDString(e.ns, "v"), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting}}}
			case "mitems":
				m = &ua.ModifyMonitoredItemsRequest{RequestHeader: h, SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: it, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 500, QueueSize: 3}}}}
			case "setmode":
				m = &ua.SetMonitoringModeRequest{RequestHeader: h, SubscriptionID: sub, MonitoringMode: ua.MonitoringModeSampling, MonitoredItemIDs: []uint32{it}}
			case "delitems":
				m = &ua.DeleteMonitoredItemsRequest{RequestHeader: h, SubscriptionID: sub, MonitoredItemIDs: []uint32{it}}
			case "settrig":
				m = &ua.SetTriggeringRequest{RequestHeader: h, SubscriptionID: sub, TriggeringItemID: it, LinksToAdd: []uint32{it}}
			case "resend":
				m = &ua.CallRequest{RequestHeader: h, MethodsToCall: []ua.CallMethodRequest{{ObjectID: ua.ObjectIDServer, MethodID: ua.MethodIDServerResendData, InputArguments: []ua.Variant{sub}}}}
			case "closesession":
				m = &ua.CloseSessionRequest{RequestHeader: h, DeleteSubscriptions: true}
			}
			calls = append(calls, call{s, s.p.req(), op, m})
		}
	}
	var wg sync.WaitGroup
	for _, c := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if d := time.Until(e.t0.Add(time.Duration(in.At)*time.Millisecond - time.Duration(in.Early)*time.Microsecond)); d > 0 {
				time.Sleep(d)
			}
			c.s.p.send(c.m, c.id)
		}()
	}
	wg.Wait()
	e.until(in.At + 30000)
	// whatever was asked: answered once (a publish request may wait for as long as its subscription lives)
	answers := map[int]map[uint32]int{}
	for _, r := range e.collect() {
		if answers[r.s.n] == nil {
			answers[r.s.n] = map[uint32]int{}
		}
		if r.r.Kind == "MSG" {
			answers[r.s.n][r.r.ReqID]++
		}
	}
	for _, c := range calls {
		rec.emit(obj{"s": c.s.n, "op": c.op, "n": answers[c.s.n][c.id]})
	}
	// the server still serves
	p := e.connect()
	s := e.sessionOn(99, p, 60000)
	_, ok := s.p.call(&ua.ReadRequest{RequestHeader: hdr(s.token, 1, 0), NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerStatusState, AttributeID: ua.AttributeIDValue}}}).(*ua.ReadResponse)
	rec.emit(obj{"op": "alive", "ok": ok})
	synctest.Wait()
}
