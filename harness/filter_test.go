package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["filter"] = runFilter }

type filterNum struct {
	B string
	O int
}

// numbers of a type: smallest, largest and one unit
var numTypes = map[string]struct {
	id   ua.NodeID
	make func(n filterNum) any
}{
	"SByte":   {ua.DataTypeIDSByte, func(n filterNum) any { return int8(pick(n, math.MinInt8, math.MaxInt8)) }},
	"Int16":   {ua.DataTypeIDInt16, func(n filterNum) any { return int16(pick(n, math.MinInt16, math.MaxInt16)) }},
	"Int32":   {ua.DataTypeIDInt32, func(n filterNum) any { return int32(pick(n, math.MinInt32, math.MaxInt32)) }},
	"Int64":   {ua.DataTypeIDInt64, func(n filterNum) any { return pick(n, math.MinInt64, math.MaxInt64) }},
	"Byte":    {ua.DataTypeIDByte, func(n filterNum) any { return byte(pick(n, 0, math.MaxUint8)) }},
	"UInt16":  {ua.DataTypeIDUInt16, func(n filterNum) any { return uint16(pick(n, 0, math.MaxUint16)) }},
	"UInt32":  {ua.DataTypeIDUInt32, func(n filterNum) any { return uint32(pick(n, 0, math.MaxUint32)) }},
	"UInt64":  {ua.DataTypeIDUInt64, func(n filterNum) any { return uint64(pick(n, 0, -1)) }},
	"Float":   {ua.DataTypeIDFloat, func(n filterNum) any { return float32(pickF(n, math.MaxFloat32)) }},
	"Double":  {ua.DataTypeIDDouble, func(n filterNum) any { return pickF(n, math.MaxFloat64) }},
	"String":  {ua.DataTypeIDString, func(n filterNum) any { return fmt.Sprintf("s%d", n.O) }},
	"Boolean": {ua.DataTypeIDBoolean, func(n filterNum) any { return n.O != 0 }},
	"DateTime": {ua.DataTypeIDDateTime, func(n filterNum) any {
		return time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC).Add(time.Duration(n.O) * time.Second)
	}},
}

func pick(n filterNum, lo, hi int64) int64 {
	switch n.B {
	case "min":
		return lo + int64(n.O/2)
	case "max":
		return hi + int64(n.O/2)
	}
	return int64(n.O / 2)
}

func pickF(n filterNum, big float64) float64 {
	switch n.B {
	case "min":
		return -big
	case "max":
		return big
	}
	return float64(n.O) / 2
}

// runFilter creates one item per filter, lets the samples pass one per sampling interval, and reports which of them each item reported.
func runFilter(rec *recorder, c json.RawMessage) {
	var in struct {
		Type    string
		Array   bool
		Samples []struct {
			X  []filterNum
			Sc string
			Ts int
		}
		Filters []struct {
			Trig string
			Db   int
		}
	}
	if err := json.Unmarshal(c, &in); err != nil {
		panic(err)
	}
	e := newEnv(rec, server.WithAnonymousIdentity(true))
	typ := numTypes[in.Type]
	base := time.Now().Add(-time.Hour)
	mk := func(k int) ua.DataValue {
		s := in.Samples[k]
		var v any
		if in.Array {
			sl := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(typ.make(filterNum{"zero", 0}))), 0, len(s.X))
			for _, n := range s.X {
				sl = reflect.Append(sl, reflect.ValueOf(typ.make(n)))
			}
			v = sl.Interface()
		} else {
			v = typ.make(s.X[0])
		}
		sc := ua.StatusCode(0x40000000)
		if s.Sc != "Uncertain" {
			sc = statusByName(s.Sc)
		}
		return ua.NewDataValue(v, sc, base.Add(time.Duration(s.Ts)*time.Second), 0, time.Now(), 0)
	}
	rank := ua.ValueRankScalar
	if in.Array {
		rank = ua.ValueRankOneDimension
	}
	n := e.variable("v", mk(0), typ.id, rank, ua.AccessLevelsCurrentRead, 0, nil)
	e.serve()
	e.srv.Scheduler().GetPollGroup(100 * time.Millisecond)
	s := e.session(1)
	time.Sleep(30 * time.Millisecond)
	sub := s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), RequestedPublishingInterval: 5000, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 3, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID
	req := &ua.CreateMonitoredItemsRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth}
	for i, f := range in.Filters {
		dcf := ua.DataChangeFilter{Trigger: trigs[f.Trig]}
		if f.Db > 0 {
			dcf.DeadbandType, dcf.DeadbandValue = uint32(ua.DeadbandTypeAbsolute), float64(f.Db)/2
		}
		req.ItemsToCreate = append(req.ItemsToCreate, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: ua.NewNodeIDString(e.ns, "v"), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
			RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), SamplingInterval: 100, QueueSize: 100, DiscardOldest: true, Filter: dcf}})
	}
	cr := s.p.call(req).(*ua.CreateMonitoredItemsResponse)
	got := make([][]int, len(in.Filters))
	res := []string{}
	for i, r := range cr.Results {
		res = append(res, code(r.StatusCode))
		got[i] = []int{}
	}
	// the server timestamp of a value identifies the sample
	at := map[int64]int{}
	n0 := n.Value()
	at[n0.ServerTimestamp.UnixNano()/1e4] = 1
	for k := 1; k < len(in.Samples); k++ {
		time.Sleep(100 * time.Millisecond)
		v := mk(k)
		n.SetValue(v)
		at[v.ServerTimestamp.UnixNano()/1e4] = k + 1
	}
	id := s.p.req()
	s.p.send(&ua.PublishRequest{RequestHeader: hdr(s.token, 1, 0)}, id)
	time.Sleep(5500 * time.Millisecond)
	synctest.Wait()
	for _, r := range s.p.take() {
		p, ok := r.Msg.(*ua.PublishResponse)
		if !ok {
			continue
		}
		for _, nd := range p.NotificationMessage.NotificationData {
			for _, m := range nd.(ua.DataChangeNotification).MonitoredItems {
				k, ok := at[m.Value.ServerTimestamp.UnixNano()/1e4]
				if !ok {
					k = -1
				} else if w := mk(k - 1); !reflect.DeepEqual(m.Value.Value, w.Value) && !(in.Array && len(in.Samples[k-1].X) == 0) || m.Value.StatusCode != w.StatusCode {
					k = -2
				}
				got[m.ClientHandle] = append(got[m.ClientHandle], k)
			}
		}
	}
	rec.emit(obj{"res": res, "got": got})
}
