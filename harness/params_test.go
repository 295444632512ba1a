package harness

import (
	"encoding/json"
	"math"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["params"] = runParams; kinds["cycle"] = runCycle }

type parIv struct {
	K string
	Q int64
}

func (p parIv) ms() float64 {
	switch p.K {
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	}
	return float64(p.Q) / 4
}

type parC struct {
	N   uint32
	Tok string
}

func (c parC) val() uint32 {
	switch c.Tok {
	case "2^31-1":
		return math.MaxInt32
	case "2^31":
		return 1 << 31
	case "2^32-1":
		return math.MaxUint32
	case "1431655765":
		return 1431655765
	case "1431655766":
		return 1431655766
	}
	return c.N
}

type parSub struct {
	Pi     parIv
	Ka, Lt parC
}
type parItem struct {
	Pi, Si  parIv
	Q       parC
	NodeMin float64
}

// quarters renders an interval in quarter milliseconds, -1 if it is not a multiple or not a number.
func quarters(v float64) int64 {
	if math.IsNaN(v) || v != math.Trunc(v*4)/4 || math.Abs(v) > 1e12 {
		return -1
	}
	return int64(v * 4)
}

// runParams reports the revised values of many requests, for creation and for modification.
func runParams(rec *recorder, c json.RawMessage) {
	var in struct {
		Subs  []parSub
		Items []parItem
	}
	if err := json.Unmarshal(c, &in); err != nil {
		panic(err)
	}
	e := newEnv(rec, server.WithAnonymousIdentity(true))
	now := time.Now()
	for n, m := range map[string]float64{"m0": 0, "m1200": 300, "m280000": 70000} {
		e.variable(n, ua.NewDataValue(int32(0), 0, now, 0, now, 0), ua.DataTypeIDInt32, ua.ValueRankScalar, ua.AccessLevelsCurrentRead, m, nil)
	}
	e.serve()
	s := e.session(1)
	create := func(pi float64, ka, lt uint32) *ua.CreateSubscriptionResponse {
		return s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), RequestedPublishingInterval: pi, RequestedLifetimeCount: lt, RequestedMaxKeepAliveCount: ka, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse)
	}
	del := func(id uint32) {
		s.p.call(&ua.DeleteSubscriptionsRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionIDs: []uint32{id}})
	}
	base := create(1000, 10, 30).SubscriptionID
	for i, x := range in.Subs {
		r := create(x.Pi.ms(), x.Ka.val(), x.Lt.val())
		rec.emit(obj{"k": "sub", "i": i, "how": "create", "pi": quarters(r.RevisedPublishingInterval), "ka": r.RevisedMaxKeepAliveCount, "lt": r.RevisedLifetimeCount})
		del(r.SubscriptionID)
		m := s.p.call(&ua.ModifySubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionID: base, RequestedPublishingInterval: x.Pi.ms(), RequestedLifetimeCount: x.Lt.val(), RequestedMaxKeepAliveCount: x.Ka.val()}).(*ua.ModifySubscriptionResponse)
		rec.emit(obj{"k": "sub", "i": i, "how": "modify", "pi": quarters(m.RevisedPublishingInterval), "ka": m.RevisedMaxKeepAliveCount, "lt": m.RevisedLifetimeCount})
	}
	node := map[float64]string{0: "m0", 1200: "m1200", 280000: "m280000"}
	for i, x := range in.Items {
		sub := create(x.Pi.ms(), 3, 100).SubscriptionID
		p := ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: x.Si.ms(), QueueSize: x.Q.val(), DiscardOldest: true}
		rv := ua.ReadValueID{NodeID: ua.NewNodeIDString(e.ns, node[x.NodeMin]), AttributeID: ua.AttributeIDValue}
		r := s.p.call(&ua.CreateMonitoredItemsRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
			ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: rv, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: p},
				{ItemToMonitor: rv, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{SamplingInterval: 1000, QueueSize: 5}}}}).(*ua.CreateMonitoredItemsResponse).Results
		rec.emit(obj{"k": "item", "i": i, "how": "create", "si": quarters(r[0].RevisedSamplingInterval), "q": r[0].RevisedQueueSize, "code": code(r[0].StatusCode)})
		m := s.p.call(&ua.ModifyMonitoredItemsRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
			ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: r[1].MonitoredItemID, RequestedParameters: p}}}).(*ua.ModifyMonitoredItemsResponse).Results[0]
		rec.emit(obj{"k": "item", "i": i, "how": "modify", "si": quarters(m.RevisedSamplingInterval), "q": m.RevisedQueueSize, "code": code(m.StatusCode)})
		del(sub)
	}
}

// runCycle observes the publishing cycle of one subscription: the times of the first two keep-alives with requests at hand, and when it expires without.
func runCycle(rec *recorder, c json.RawMessage) {
	var in struct {
		Sub    parSub
		Modify bool
		Wpi    float64 // revised, quarter ms
		Wka    int64
		Wlt    int64
	}
	if err := json.Unmarshal(c, &in); err != nil {
		panic(err)
	}
	e := newEnv(rec, server.WithAnonymousIdentity(true))
	e.serve()
	s := e.session(1)
	time.Sleep(37 * time.Millisecond)
	var id uint32
	if in.Modify {
		id = s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), RequestedPublishingInterval: 700, RequestedLifetimeCount: 60, RequestedMaxKeepAliveCount: 20, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID
		s.p.call(&ua.ModifySubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionID: id, RequestedPublishingInterval: in.Sub.Pi.ms(), RequestedLifetimeCount: in.Sub.Lt.val(), RequestedMaxKeepAliveCount: in.Sub.Ka.val()})
	} else {
		id = s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), RequestedPublishingInterval: in.Sub.Pi.ms(), RequestedLifetimeCount: in.Sub.Lt.val(), RequestedMaxKeepAliveCount: in.Sub.Ka.val(), PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID
	}
	t0 := e.ms()
	pi := int64(in.Wpi / 4)
	for i := 0; i < 2; i++ {
		s.p.send(&ua.PublishRequest{RequestHeader: hdr(s.token, 1, 0)}, s.p.req())
	}
	e.until(t0 + pi*(1+in.Wka) + 1)
	times := []int64{}
	for _, r := range s.p.take() {
		if _, ok := r.Msg.(*ua.PublishResponse); ok {
			times = append(times, r.At.Milliseconds()-t0)
		}
	}
	alive := func() bool { _, found := e.srv.SubscriptionManager().Get(id); return found }
	end := t0 + pi*(1+in.Wka+in.Wka-1+in.Wlt)
	e.until(end - 1)
	before := alive()
	e.until(end + 1)
	rec.emit(obj{"times": times, "before": before, "after": alive()})
}
