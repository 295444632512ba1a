package harness

import (
	"testing"
	"testing/synctest"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

// Helpers for demonstrations that talk to the server through the wire, in virtual time.

type demo struct {
	*env
	t *testing.T
	v *server.VariableNode
}

// runDemo starts a server with an int32 variable "v" and runs f in a synctest bubble.
func runDemo(t *testing.T, f func(d *demo), opts ...server.Option) {
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				println("demo: panic")
				panic(r)
			}
			if t.Failed() {
				println("demo: FAILED")
				exit(1)
			}
			exit(0) // goroutines of the server may outlive the demonstration
		}()
		e := newEnv(nil, append([]server.Option{server.WithAnonymousIdentity(true)}, opts...)...)
		d := &demo{env: e, t: t}
		now := time.Now()
		d.v = e.variable("v", ua.NewDataValue(int32(0), 0, now, 0, now, 0), ua.DataTypeIDInt32, ua.ValueRankScalar, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite, 0, nil)
		e.serve()
		e.srv.Scheduler().GetPollGroup(100 * time.Millisecond)
		f(d)
	})
}

func (d *demo) fail(f string, a ...any) { println("demo: failed"); d.t.Errorf("demo: "+f, a...) }

func (d *demo) set(v any) {
	now := time.Now()
	d.v.SetValue(ua.NewDataValue(v, 0, now, 0, now, 0))
}

// sleep lets virtual time pass.
func (d *demo) sleep(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond); synctest.Wait() }

func (d *demo) createSub(s *sess, pi float64, ka, lt, maxN uint32) uint32 {
	return s.p.call(&ua.CreateSubscriptionRequest{RequestHeader: hdr(s.token, 1, 0), RequestedPublishingInterval: pi, RequestedLifetimeCount: lt, RequestedMaxKeepAliveCount: ka, MaxNotificationsPerPublish: maxN, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID
}

func (d *demo) createItem(s *sess, sub uint32, mode ua.MonitoringMode, si float64, qs uint32, disc bool, filter any, handle uint32) ua.MonitoredItemCreateResult {
	p := ua.MonitoringParameters{ClientHandle: handle, SamplingInterval: si, QueueSize: qs, DiscardOldest: disc}
	if filter != nil {
		p.Filter = filter
	}
	return s.p.call(&ua.CreateMonitoredItemsRequest{RequestHeader: hdr(s.token, 1, 0), SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
		ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: ua.NewNodeIDString(d.ns, "v"), AttributeID: ua.AttributeIDValue}, MonitoringMode: mode, RequestedParameters: p}}}).(*ua.CreateMonitoredItemsResponse).Results[0]
}

// publish sends a publish request and returns its request id.
func (d *demo) publish(s *sess, acks ...ua.SubscriptionAcknowledgement) uint32 {
	id := s.p.req()
	s.p.send(&ua.PublishRequest{RequestHeader: hdr(s.token, id, 0), SubscriptionAcknowledgements: acks}, id)
	synctest.Wait()
	return id
}

// got returns the publish responses (nil for a fault) received since the last call, in order.
func (d *demo) got(s *sess) (out []*ua.PublishResponse) {
	for _, r := range s.p.take() {
		m, _ := r.Msg.(*ua.PublishResponse)
		out = append(out, m)
	}
	return
}

// values returns the values in a publish response.
func values(r *ua.PublishResponse) (out []ua.DataValue) {
	if r == nil {
		return nil
	}
	for _, n := range r.NotificationMessage.NotificationData {
		if n, ok := n.(ua.DataChangeNotification); ok {
			for _, m := range n.MonitoredItems {
				out = append(out, m.Value)
			}
		}
	}
	return
}
