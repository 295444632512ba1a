// Code generated once from the OPC UA NodeIds table; the numbers are fixed by the OPC UA specification.
package harness

import "github.com/awcullen/opcua/ua"

// msgTypes maps the binary encoding id of a service message to a constructor and a name.
var msgTypes = map[uint32]struct {
	name string
	mk   func() any
}{
	826:   {"PublishRequest", func() any { return new(ua.PublishRequest) }},
	631:   {"ReadRequest", func() any { return new(ua.ReadRequest) }},
	527:   {"BrowseRequest", func() any { return new(ua.BrowseRequest) }},
	533:   {"BrowseNextRequest", func() any { return new(ua.BrowseNextRequest) }},
	554:   {"TranslateBrowsePathsToNodeIDsRequest", func() any { return new(ua.TranslateBrowsePathsToNodeIDsRequest) }},
	673:   {"WriteRequest", func() any { return new(ua.WriteRequest) }},
	712:   {"CallRequest", func() any { return new(ua.CallRequest) }},
	664:   {"HistoryReadRequest", func() any { return new(ua.HistoryReadRequest) }},
	428:   {"GetEndpointsRequest", func() any { return new(ua.GetEndpointsRequest) }},
	446:   {"OpenSecureChannelRequest", func() any { return new(ua.OpenSecureChannelRequest) }},
	452:   {"CloseSecureChannelRequest", func() any { return new(ua.CloseSecureChannelRequest) }},
	461:   {"CreateSessionRequest", func() any { return new(ua.CreateSessionRequest) }},
	467:   {"ActivateSessionRequest", func() any { return new(ua.ActivateSessionRequest) }},
	473:   {"CloseSessionRequest", func() any { return new(ua.CloseSessionRequest) }},
	751:   {"CreateMonitoredItemsRequest", func() any { return new(ua.CreateMonitoredItemsRequest) }},
	781:   {"DeleteMonitoredItemsRequest", func() any { return new(ua.DeleteMonitoredItemsRequest) }},
	787:   {"CreateSubscriptionRequest", func() any { return new(ua.CreateSubscriptionRequest) }},
	847:   {"DeleteSubscriptionsRequest", func() any { return new(ua.DeleteSubscriptionsRequest) }},
	799:   {"SetPublishingModeRequest", func() any { return new(ua.SetPublishingModeRequest) }},
	763:   {"ModifyMonitoredItemsRequest", func() any { return new(ua.ModifyMonitoredItemsRequest) }},
	769:   {"SetMonitoringModeRequest", func() any { return new(ua.SetMonitoringModeRequest) }},
	775:   {"SetTriggeringRequest", func() any { return new(ua.SetTriggeringRequest) }},
	793:   {"ModifySubscriptionRequest", func() any { return new(ua.ModifySubscriptionRequest) }},
	832:   {"RepublishRequest", func() any { return new(ua.RepublishRequest) }},
	841:   {"TransferSubscriptionsRequest", func() any { return new(ua.TransferSubscriptionsRequest) }},
	422:   {"FindServersRequest", func() any { return new(ua.FindServersRequest) }},
	12208: {"FindServersOnNetworkRequest", func() any { return new(ua.FindServersOnNetworkRequest) }},
	437:   {"RegisterServerRequest", func() any { return new(ua.RegisterServerRequest) }},
	12211: {"RegisterServer2Request", func() any { return new(ua.RegisterServer2Request) }},
	479:   {"CancelRequest", func() any { return new(ua.CancelRequest) }},
	488:   {"AddNodesRequest", func() any { return new(ua.AddNodesRequest) }},
	494:   {"AddReferencesRequest", func() any { return new(ua.AddReferencesRequest) }},
	500:   {"DeleteNodesRequest", func() any { return new(ua.DeleteNodesRequest) }},
	506:   {"DeleteReferencesRequest", func() any { return new(ua.DeleteReferencesRequest) }},
	560:   {"RegisterNodesRequest", func() any { return new(ua.RegisterNodesRequest) }},
	566:   {"UnregisterNodesRequest", func() any { return new(ua.UnregisterNodesRequest) }},
	615:   {"QueryFirstRequest", func() any { return new(ua.QueryFirstRequest) }},
	621:   {"QueryNextRequest", func() any { return new(ua.QueryNextRequest) }},
	700:   {"HistoryUpdateRequest", func() any { return new(ua.HistoryUpdateRequest) }},
	829:   {"PublishResponse", func() any { return new(ua.PublishResponse) }},
	634:   {"ReadResponse", func() any { return new(ua.ReadResponse) }},
	530:   {"BrowseResponse", func() any { return new(ua.BrowseResponse) }},
	536:   {"BrowseNextResponse", func() any { return new(ua.BrowseNextResponse) }},
	557:   {"TranslateBrowsePathsToNodeIDsResponse", func() any { return new(ua.TranslateBrowsePathsToNodeIDsResponse) }},
	676:   {"WriteResponse", func() any { return new(ua.WriteResponse) }},
	715:   {"CallResponse", func() any { return new(ua.CallResponse) }},
	667:   {"HistoryReadResponse", func() any { return new(ua.HistoryReadResponse) }},
	431:   {"GetEndpointsResponse", func() any { return new(ua.GetEndpointsResponse) }},
	449:   {"OpenSecureChannelResponse", func() any { return new(ua.OpenSecureChannelResponse) }},
	455:   {"CloseSecureChannelResponse", func() any { return new(ua.CloseSecureChannelResponse) }},
	464:   {"CreateSessionResponse", func() any { return new(ua.CreateSessionResponse) }},
	470:   {"ActivateSessionResponse", func() any { return new(ua.ActivateSessionResponse) }},
	476:   {"CloseSessionResponse", func() any { return new(ua.CloseSessionResponse) }},
	754:   {"CreateMonitoredItemsResponse", func() any { return new(ua.CreateMonitoredItemsResponse) }},
	784:   {"DeleteMonitoredItemsResponse", func() any { return new(ua.DeleteMonitoredItemsResponse) }},
	790:   {"CreateSubscriptionResponse", func() any { return new(ua.CreateSubscriptionResponse) }},
	850:   {"DeleteSubscriptionsResponse", func() any { return new(ua.DeleteSubscriptionsResponse) }},
	802:   {"SetPublishingModeResponse", func() any { return new(ua.SetPublishingModeResponse) }},
	397:   {"ServiceFault", func() any { return new(ua.ServiceFault) }},
	766:   {"ModifyMonitoredItemsResponse", func() any { return new(ua.ModifyMonitoredItemsResponse) }},
	772:   {"SetMonitoringModeResponse", func() any { return new(ua.SetMonitoringModeResponse) }},
	778:   {"SetTriggeringResponse", func() any { return new(ua.SetTriggeringResponse) }},
	796:   {"ModifySubscriptionResponse", func() any { return new(ua.ModifySubscriptionResponse) }},
	835:   {"RepublishResponse", func() any { return new(ua.RepublishResponse) }},
	844:   {"TransferSubscriptionsResponse", func() any { return new(ua.TransferSubscriptionsResponse) }},
	425:   {"FindServersResponse", func() any { return new(ua.FindServersResponse) }},
	12209: {"FindServersOnNetworkResponse", func() any { return new(ua.FindServersOnNetworkResponse) }},
	440:   {"RegisterServerResponse", func() any { return new(ua.RegisterServerResponse) }},
	12212: {"RegisterServer2Response", func() any { return new(ua.RegisterServer2Response) }},
	482:   {"CancelResponse", func() any { return new(ua.CancelResponse) }},
	491:   {"AddNodesResponse", func() any { return new(ua.AddNodesResponse) }},
	497:   {"AddReferencesResponse", func() any { return new(ua.AddReferencesResponse) }},
	503:   {"DeleteNodesResponse", func() any { return new(ua.DeleteNodesResponse) }},
	509:   {"DeleteReferencesResponse", func() any { return new(ua.DeleteReferencesResponse) }},
	563:   {"RegisterNodesResponse", func() any { return new(ua.RegisterNodesResponse) }},
	569:   {"UnregisterNodesResponse", func() any { return new(ua.UnregisterNodesResponse) }},
	618:   {"QueryFirstResponse", func() any { return new(ua.QueryFirstResponse) }},
	624:   {"QueryNextResponse", func() any { return new(ua.QueryNextResponse) }},
	703:   {"HistoryUpdateResponse", func() any { return new(ua.HistoryUpdateResponse) }},
}
