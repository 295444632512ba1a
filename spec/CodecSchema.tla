---- MODULE CodecSchema ----
(* Generated by tools/mkschema.py from the standard: the fields of every structure (name, type, array), and the
   identifiers of their binary encodings. *)
Schema == [
  ActivateSessionRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"ClientSignature", "SignatureData", FALSE>>, <<"ClientSoftwareCertificates", "SignedSoftwareCertificate", TRUE>>, <<"LocaleIds", "String", TRUE>>, <<"UserIdentityToken", "ExtensionObject", FALSE>>, <<"UserTokenSignature", "SignatureData", FALSE>>>>,
  ActivateSessionResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"ServerNonce", "ByteString", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  AddNodesItem |-> <<<<"ParentNodeId", "ExpandedNodeId", FALSE>>, <<"ReferenceTypeId", "NodeId", FALSE>>, <<"RequestedNewNodeId", "ExpandedNodeId", FALSE>>, <<"BrowseName", "QualifiedName", FALSE>>, <<"NodeClass", "Int32", FALSE>>, <<"NodeAttributes", "ExtensionObject", FALSE>>, <<"TypeDefinition", "ExpandedNodeId", FALSE>>>>,
  AddNodesRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"NodesToAdd", "AddNodesItem", TRUE>>>>,
  AddNodesResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "AddNodesResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  AddNodesResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"AddedNodeId", "NodeId", FALSE>>>>,
  AddReferencesItem |-> <<<<"SourceNodeId", "NodeId", FALSE>>, <<"ReferenceTypeId", "NodeId", FALSE>>, <<"IsForward", "Boolean", FALSE>>, <<"TargetServerUri", "String", FALSE>>, <<"TargetNodeId", "ExpandedNodeId", FALSE>>, <<"TargetNodeClass", "Int32", FALSE>>>>,
  AddReferencesRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"ReferencesToAdd", "AddReferencesItem", TRUE>>>>,
  AddReferencesResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  AdditionalParametersType |-> <<<<"Parameters", "KeyValuePair", TRUE>>>>,
  AggregateConfiguration |-> <<<<"UseServerCapabilitiesDefaults", "Boolean", FALSE>>, <<"TreatUncertainAsBad", "Boolean", FALSE>>, <<"PercentDataBad", "Byte", FALSE>>, <<"PercentDataGood", "Byte", FALSE>>, <<"UseSlopedExtrapolation", "Boolean", FALSE>>>>,
  AggregateFilter |-> <<<<"StartTime", "DateTime", FALSE>>, <<"AggregateType", "NodeId", FALSE>>, <<"ProcessingInterval", "Double", FALSE>>, <<"AggregateConfiguration", "AggregateConfiguration", FALSE>>>>,
  AggregateFilterResult |-> <<<<"RevisedStartTime", "DateTime", FALSE>>, <<"RevisedProcessingInterval", "Double", FALSE>>, <<"RevisedAggregateConfiguration", "AggregateConfiguration", FALSE>>>>,
  AliasNameDataType |-> <<<<"AliasName", "QualifiedName", FALSE>>, <<"ReferencedNodes", "ExpandedNodeId", TRUE>>>>,
  Annotation |-> <<<<"Message", "String", FALSE>>, <<"UserName", "String", FALSE>>, <<"AnnotationTime", "DateTime", FALSE>>>>,
  AnonymousIdentityToken |-> <<<<"PolicyId", "String", FALSE>>>>,
  ApplicationDescription |-> <<<<"ApplicationUri", "String", FALSE>>, <<"ProductUri", "String", FALSE>>, <<"ApplicationName", "LocalizedText", FALSE>>, <<"ApplicationType", "Int32", FALSE>>, <<"GatewayServerUri", "String", FALSE>>, <<"DiscoveryProfileUri", "String", FALSE>>, <<"DiscoveryUrls", "String", TRUE>>>>,
  Argument |-> <<<<"Name", "String", FALSE>>, <<"DataType", "NodeId", FALSE>>, <<"ValueRank", "Int32", FALSE>>, <<"ArrayDimensions", "UInt32", TRUE>>, <<"Description", "LocalizedText", FALSE>>>>,
  AttributeOperand |-> <<<<"NodeId", "NodeId", FALSE>>, <<"Alias", "String", FALSE>>, <<"BrowsePath", "RelativePath", FALSE>>, <<"AttributeId", "UInt32", FALSE>>, <<"IndexRange", "String", FALSE>>>>,
  AxisInformation |-> <<<<"EngineeringUnits", "EUInformation", FALSE>>, <<"EURange", "Range", FALSE>>, <<"Title", "LocalizedText", FALSE>>, <<"AxisScaleType", "Int32", FALSE>>, <<"AxisSteps", "Double", TRUE>>>>,
  BrokerConnectionTransportDataType |-> <<<<"ResourceUri", "String", FALSE>>, <<"AuthenticationProfileUri", "String", FALSE>>>>,
  BrokerDataSetReaderTransportDataType |-> <<<<"QueueName", "String", FALSE>>, <<"ResourceUri", "String", FALSE>>, <<"AuthenticationProfileUri", "String", FALSE>>, <<"RequestedDeliveryGuarantee", "Int32", FALSE>>, <<"MetaDataQueueName", "String", FALSE>>>>,
  BrokerDataSetWriterTransportDataType |-> <<<<"QueueName", "String", FALSE>>, <<"ResourceUri", "String", FALSE>>, <<"AuthenticationProfileUri", "String", FALSE>>, <<"RequestedDeliveryGuarantee", "Int32", FALSE>>, <<"MetaDataQueueName", "String", FALSE>>, <<"MetaDataUpdateTime", "Double", FALSE>>>>,
  BrokerWriterGroupTransportDataType |-> <<<<"QueueName", "String", FALSE>>, <<"ResourceUri", "String", FALSE>>, <<"AuthenticationProfileUri", "String", FALSE>>, <<"RequestedDeliveryGuarantee", "Int32", FALSE>>>>,
  BrowseDescription |-> <<<<"NodeId", "NodeId", FALSE>>, <<"BrowseDirection", "Int32", FALSE>>, <<"ReferenceTypeId", "NodeId", FALSE>>, <<"IncludeSubtypes", "Boolean", FALSE>>, <<"NodeClassMask", "UInt32", FALSE>>, <<"ResultMask", "UInt32", FALSE>>>>,
  BrowseNextRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"ReleaseContinuationPoints", "Boolean", FALSE>>, <<"ContinuationPoints", "ByteString", TRUE>>>>,
  BrowseNextResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "BrowseResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  BrowsePath |-> <<<<"StartingNode", "NodeId", FALSE>>, <<"RelativePath", "RelativePath", FALSE>>>>,
  BrowsePathResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"Targets", "BrowsePathTarget", TRUE>>>>,
  BrowsePathTarget |-> <<<<"TargetId", "ExpandedNodeId", FALSE>>, <<"RemainingPathIndex", "UInt32", FALSE>>>>,
  BrowseRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"View", "ViewDescription", FALSE>>, <<"RequestedMaxReferencesPerNode", "UInt32", FALSE>>, <<"NodesToBrowse", "BrowseDescription", TRUE>>>>,
  BrowseResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "BrowseResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  BrowseResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"ContinuationPoint", "ByteString", FALSE>>, <<"References", "ReferenceDescription", TRUE>>>>,
  BuildInfo |-> <<<<"ProductUri", "String", FALSE>>, <<"ManufacturerName", "String", FALSE>>, <<"ProductName", "String", FALSE>>, <<"SoftwareVersion", "String", FALSE>>, <<"BuildNumber", "String", FALSE>>, <<"BuildDate", "DateTime", FALSE>>>>,
  CallMethodRequest |-> <<<<"ObjectId", "NodeId", FALSE>>, <<"MethodId", "NodeId", FALSE>>, <<"InputArguments", "Variant", TRUE>>>>,
  CallMethodResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"InputArgumentResults", "StatusCode", TRUE>>, <<"InputArgumentDiagnosticInfos", "DiagnosticInfo", TRUE>>, <<"OutputArguments", "Variant", TRUE>>>>,
  CallRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"MethodsToCall", "CallMethodRequest", TRUE>>>>,
  CallResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "CallMethodResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  CancelRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"RequestHandle", "UInt32", FALSE>>>>,
  CancelResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"CancelCount", "UInt32", FALSE>>>>,
  CartesianCoordinates |-> <<>>,
  ChannelSecurityToken |-> <<<<"ChannelId", "UInt32", FALSE>>, <<"TokenId", "UInt32", FALSE>>, <<"CreatedAt", "DateTime", FALSE>>, <<"RevisedLifetime", "UInt32", FALSE>>>>,
  CloseSecureChannelRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>>>,
  CloseSecureChannelResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>>>,
  CloseSessionRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"DeleteSubscriptions", "Boolean", FALSE>>>>,
  CloseSessionResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>>>,
  ComplexNumberType |-> <<<<"Real", "Float", FALSE>>, <<"Imaginary", "Float", FALSE>>>>,
  ConfigurationVersionDataType |-> <<<<"MajorVersion", "UInt32", FALSE>>, <<"MinorVersion", "UInt32", FALSE>>>>,
  ConnectionTransportDataType |-> <<>>,
  ContentFilter |-> <<<<"Elements", "ContentFilterElement", TRUE>>>>,
  ContentFilterElement |-> <<<<"FilterOperator", "Int32", FALSE>>, <<"FilterOperands", "ExtensionObject", TRUE>>>>,
  ContentFilterElementResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"OperandStatusCodes", "StatusCode", TRUE>>, <<"OperandDiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  ContentFilterResult |-> <<<<"ElementResults", "ContentFilterElementResult", TRUE>>, <<"ElementDiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  CreateMonitoredItemsRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"TimestampsToReturn", "Int32", FALSE>>, <<"ItemsToCreate", "MonitoredItemCreateRequest", TRUE>>>>,
  CreateMonitoredItemsResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "MonitoredItemCreateResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  CreateSessionRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"ClientDescription", "ApplicationDescription", FALSE>>, <<"ServerUri", "String", FALSE>>, <<"EndpointUrl", "String", FALSE>>, <<"SessionName", "String", FALSE>>, <<"ClientNonce", "ByteString", FALSE>>, <<"ClientCertificate", "ByteString", FALSE>>, <<"RequestedSessionTimeout", "Double", FALSE>>, <<"MaxResponseMessageSize", "UInt32", FALSE>>>>,
  CreateSessionResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"SessionId", "NodeId", FALSE>>, <<"AuthenticationToken", "NodeId", FALSE>>, <<"RevisedSessionTimeout", "Double", FALSE>>, <<"ServerNonce", "ByteString", FALSE>>, <<"ServerCertificate", "ByteString", FALSE>>, <<"ServerEndpoints", "EndpointDescription", TRUE>>, <<"ServerSoftwareCertificates", "SignedSoftwareCertificate", TRUE>>, <<"ServerSignature", "SignatureData", FALSE>>, <<"MaxRequestMessageSize", "UInt32", FALSE>>>>,
  CreateSubscriptionRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"RequestedPublishingInterval", "Double", FALSE>>, <<"RequestedLifetimeCount", "UInt32", FALSE>>, <<"RequestedMaxKeepAliveCount", "UInt32", FALSE>>, <<"MaxNotificationsPerPublish", "UInt32", FALSE>>, <<"PublishingEnabled", "Boolean", FALSE>>, <<"Priority", "Byte", FALSE>>>>,
  CreateSubscriptionResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"RevisedPublishingInterval", "Double", FALSE>>, <<"RevisedLifetimeCount", "UInt32", FALSE>>, <<"RevisedMaxKeepAliveCount", "UInt32", FALSE>>>>,
  CurrencyUnitType |-> <<<<"NumericCode", "Int16", FALSE>>, <<"Exponent", "SByte", FALSE>>, <<"AlphabeticCode", "String", FALSE>>, <<"Currency", "LocalizedText", FALSE>>>>,
  DataChangeFilter |-> <<<<"Trigger", "Int32", FALSE>>, <<"DeadbandType", "UInt32", FALSE>>, <<"DeadbandValue", "Double", FALSE>>>>,
  DataChangeNotification |-> <<<<"MonitoredItems", "MonitoredItemNotification", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  DataSetMetaDataType |-> <<<<"Namespaces", "String", TRUE>>, <<"StructureDataTypes", "StructureDescription", TRUE>>, <<"EnumDataTypes", "EnumDescription", TRUE>>, <<"SimpleDataTypes", "SimpleTypeDescription", TRUE>>, <<"Name", "String", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"Fields", "FieldMetaData", TRUE>>, <<"DataSetClassId", "Guid", FALSE>>, <<"ConfigurationVersion", "ConfigurationVersionDataType", FALSE>>>>,
  DataSetReaderDataType |-> <<<<"Name", "String", FALSE>>, <<"Enabled", "Boolean", FALSE>>, <<"PublisherId", "Variant", FALSE>>, <<"WriterGroupId", "UInt16", FALSE>>, <<"DataSetWriterId", "UInt16", FALSE>>, <<"DataSetMetaData", "DataSetMetaDataType", FALSE>>, <<"DataSetFieldContentMask", "Int32", FALSE>>, <<"MessageReceiveTimeout", "Double", FALSE>>, <<"KeyFrameCount", "UInt32", FALSE>>, <<"HeaderLayoutUri", "String", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"SecurityGroupId", "String", FALSE>>, <<"SecurityKeyServices", "EndpointDescription", TRUE>>, <<"DataSetReaderProperties", "KeyValuePair", TRUE>>, <<"TransportSettings", "ExtensionObject", FALSE>>, <<"MessageSettings", "ExtensionObject", FALSE>>, <<"SubscribedDataSet", "ExtensionObject", FALSE>>>>,
  DataSetReaderMessageDataType |-> <<>>,
  DataSetReaderTransportDataType |-> <<>>,
  DataSetWriterDataType |-> <<<<"Name", "String", FALSE>>, <<"Enabled", "Boolean", FALSE>>, <<"DataSetWriterId", "UInt16", FALSE>>, <<"DataSetFieldContentMask", "Int32", FALSE>>, <<"KeyFrameCount", "UInt32", FALSE>>, <<"DataSetName", "String", FALSE>>, <<"DataSetWriterProperties", "KeyValuePair", TRUE>>, <<"TransportSettings", "ExtensionObject", FALSE>>, <<"MessageSettings", "ExtensionObject", FALSE>>>>,
  DataSetWriterMessageDataType |-> <<>>,
  DataSetWriterTransportDataType |-> <<>>,
  DataTypeAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"IsAbstract", "Boolean", FALSE>>>>,
  DataTypeDescription |-> <<<<"DataTypeId", "NodeId", FALSE>>, <<"Name", "QualifiedName", FALSE>>>>,
  DataTypeSchemaHeader |-> <<<<"Namespaces", "String", TRUE>>, <<"StructureDataTypes", "StructureDescription", TRUE>>, <<"EnumDataTypes", "EnumDescription", TRUE>>, <<"SimpleDataTypes", "SimpleTypeDescription", TRUE>>>>,
  DatagramConnectionTransportDataType |-> <<<<"DiscoveryAddress", "ExtensionObject", FALSE>>>>,
  DatagramWriterGroupTransportDataType |-> <<<<"MessageRepeatCount", "Byte", FALSE>>, <<"MessageRepeatDelay", "Double", FALSE>>>>,
  DecimalDataType |-> <<<<"Scale", "Int16", FALSE>>, <<"Value", "ByteString", FALSE>>>>,
  DeleteAtTimeDetails |-> <<<<"NodeId", "NodeId", FALSE>>, <<"ReqTimes", "DateTime", TRUE>>>>,
  DeleteEventDetails |-> <<<<"NodeId", "NodeId", FALSE>>, <<"EventIds", "ByteString", TRUE>>>>,
  DeleteMonitoredItemsRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"MonitoredItemIds", "UInt32", TRUE>>>>,
  DeleteMonitoredItemsResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  DeleteNodesItem |-> <<<<"NodeId", "NodeId", FALSE>>, <<"DeleteTargetReferences", "Boolean", FALSE>>>>,
  DeleteNodesRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"NodesToDelete", "DeleteNodesItem", TRUE>>>>,
  DeleteNodesResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  DeleteRawModifiedDetails |-> <<<<"NodeId", "NodeId", FALSE>>, <<"IsDeleteModified", "Boolean", FALSE>>, <<"StartTime", "DateTime", FALSE>>, <<"EndTime", "DateTime", FALSE>>>>,
  DeleteReferencesItem |-> <<<<"SourceNodeId", "NodeId", FALSE>>, <<"ReferenceTypeId", "NodeId", FALSE>>, <<"IsForward", "Boolean", FALSE>>, <<"TargetNodeId", "ExpandedNodeId", FALSE>>, <<"DeleteBidirectional", "Boolean", FALSE>>>>,
  DeleteReferencesRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"ReferencesToDelete", "DeleteReferencesItem", TRUE>>>>,
  DeleteReferencesResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  DeleteSubscriptionsRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionIds", "UInt32", TRUE>>>>,
  DeleteSubscriptionsResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  DiscoveryConfiguration |-> <<>>,
  DoubleComplexNumberType |-> <<<<"Real", "Double", FALSE>>, <<"Imaginary", "Double", FALSE>>>>,
  EUInformation |-> <<<<"NamespaceUri", "String", FALSE>>, <<"UnitId", "Int32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>>>,
  ElementOperand |-> <<<<"Index", "UInt32", FALSE>>>>,
  EndpointConfiguration |-> <<<<"OperationTimeout", "Int32", FALSE>>, <<"UseBinaryEncoding", "Boolean", FALSE>>, <<"MaxStringLength", "Int32", FALSE>>, <<"MaxByteStringLength", "Int32", FALSE>>, <<"MaxArrayLength", "Int32", FALSE>>, <<"MaxMessageSize", "Int32", FALSE>>, <<"MaxBufferSize", "Int32", FALSE>>, <<"ChannelLifetime", "Int32", FALSE>>, <<"SecurityTokenLifetime", "Int32", FALSE>>>>,
  EndpointDescription |-> <<<<"EndpointUrl", "String", FALSE>>, <<"Server", "ApplicationDescription", FALSE>>, <<"ServerCertificate", "ByteString", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"SecurityPolicyUri", "String", FALSE>>, <<"UserIdentityTokens", "UserTokenPolicy", TRUE>>, <<"TransportProfileUri", "String", FALSE>>, <<"SecurityLevel", "Byte", FALSE>>>>,
  EndpointType |-> <<<<"EndpointUrl", "String", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"SecurityPolicyUri", "String", FALSE>>, <<"TransportProfileUri", "String", FALSE>>>>,
  EndpointUrlListDataType |-> <<<<"EndpointUrlList", "String", TRUE>>>>,
  EnumDefinition |-> <<<<"Fields", "EnumField", TRUE>>>>,
  EnumDescription |-> <<<<"DataTypeId", "NodeId", FALSE>>, <<"Name", "QualifiedName", FALSE>>, <<"EnumDefinition", "EnumDefinition", FALSE>>, <<"BuiltInType", "Byte", FALSE>>>>,
  EnumField |-> <<<<"Value", "Int64", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"Name", "String", FALSE>>>>,
  EnumValueType |-> <<<<"Value", "Int64", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>>>,
  EphemeralKeyType |-> <<<<"PublicKey", "ByteString", FALSE>>, <<"Signature", "ByteString", FALSE>>>>,
  EventFieldList |-> <<<<"ClientHandle", "UInt32", FALSE>>, <<"EventFields", "Variant", TRUE>>>>,
  EventFilter |-> <<<<"SelectClauses", "SimpleAttributeOperand", TRUE>>, <<"WhereClause", "ContentFilter", FALSE>>>>,
  EventFilterResult |-> <<<<"SelectClauseResults", "StatusCode", TRUE>>, <<"SelectClauseDiagnosticInfos", "DiagnosticInfo", TRUE>>, <<"WhereClauseResult", "ContentFilterResult", FALSE>>>>,
  EventNotificationList |-> <<<<"Events", "EventFieldList", TRUE>>>>,
  FieldMetaData |-> <<<<"Name", "String", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"FieldFlags", "UInt16", FALSE>>, <<"BuiltInType", "Byte", FALSE>>, <<"DataType", "NodeId", FALSE>>, <<"ValueRank", "Int32", FALSE>>, <<"ArrayDimensions", "UInt32", TRUE>>, <<"MaxStringLength", "UInt32", FALSE>>, <<"DataSetFieldId", "Guid", FALSE>>, <<"Properties", "KeyValuePair", TRUE>>>>,
  FieldTargetDataType |-> <<<<"DataSetFieldId", "Guid", FALSE>>, <<"ReceiverIndexRange", "String", FALSE>>, <<"TargetNodeId", "NodeId", FALSE>>, <<"AttributeId", "UInt32", FALSE>>, <<"WriteIndexRange", "String", FALSE>>, <<"OverrideValueHandling", "Int32", FALSE>>, <<"OverrideValue", "Variant", FALSE>>>>,
  FilterOperand |-> <<>>,
  FindServersOnNetworkRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"StartingRecordId", "UInt32", FALSE>>, <<"MaxRecordsToReturn", "UInt32", FALSE>>, <<"ServerCapabilityFilter", "String", TRUE>>>>,
  FindServersOnNetworkResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"LastCounterResetTime", "DateTime", FALSE>>, <<"Servers", "ServerOnNetwork", TRUE>>>>,
  FindServersRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"EndpointUrl", "String", FALSE>>, <<"LocaleIds", "String", TRUE>>, <<"ServerUris", "String", TRUE>>>>,
  FindServersResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Servers", "ApplicationDescription", TRUE>>>>,
  Frame |-> <<>>,
  GenericAttributeValue |-> <<<<"AttributeId", "UInt32", FALSE>>, <<"Value", "Variant", FALSE>>>>,
  GenericAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"AttributeValues", "GenericAttributeValue", TRUE>>>>,
  GetEndpointsRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"EndpointUrl", "String", FALSE>>, <<"LocaleIds", "String", TRUE>>, <<"ProfileUris", "String", TRUE>>>>,
  GetEndpointsResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Endpoints", "EndpointDescription", TRUE>>>>,
  HistoryData |-> <<<<"DataValues", "DataValue", TRUE>>>>,
  HistoryEvent |-> <<<<"Events", "HistoryEventFieldList", TRUE>>>>,
  HistoryEventFieldList |-> <<<<"EventFields", "Variant", TRUE>>>>,
  HistoryModifiedData |-> <<<<"DataValues", "DataValue", TRUE>>, <<"ModificationInfos", "ModificationInfo", TRUE>>>>,
  HistoryReadDetails |-> <<>>,
  HistoryReadRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"HistoryReadDetails", "ExtensionObject", FALSE>>, <<"TimestampsToReturn", "Int32", FALSE>>, <<"ReleaseContinuationPoints", "Boolean", FALSE>>, <<"NodesToRead", "HistoryReadValueId", TRUE>>>>,
  HistoryReadResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "HistoryReadResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  HistoryReadResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"ContinuationPoint", "ByteString", FALSE>>, <<"HistoryData", "ExtensionObject", FALSE>>>>,
  HistoryReadValueId |-> <<<<"NodeId", "NodeId", FALSE>>, <<"IndexRange", "String", FALSE>>, <<"DataEncoding", "QualifiedName", FALSE>>, <<"ContinuationPoint", "ByteString", FALSE>>>>,
  HistoryUpdateDetails |-> <<<<"NodeId", "NodeId", FALSE>>>>,
  HistoryUpdateRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"HistoryUpdateDetails", "ExtensionObject", TRUE>>>>,
  HistoryUpdateResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "HistoryUpdateResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  HistoryUpdateResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"OperationResults", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  IdentityMappingRuleType |-> <<<<"CriteriaType", "Int32", FALSE>>, <<"Criteria", "String", FALSE>>>>,
  IssuedIdentityToken |-> <<<<"PolicyId", "String", FALSE>>, <<"TokenData", "ByteString", FALSE>>, <<"EncryptionAlgorithm", "String", FALSE>>>>,
  JsonDataSetReaderMessageDataType |-> <<<<"NetworkMessageContentMask", "Int32", FALSE>>, <<"DataSetMessageContentMask", "Int32", FALSE>>>>,
  JsonDataSetWriterMessageDataType |-> <<<<"DataSetMessageContentMask", "Int32", FALSE>>>>,
  JsonWriterGroupMessageDataType |-> <<<<"NetworkMessageContentMask", "Int32", FALSE>>>>,
  KeyValuePair |-> <<<<"Key", "QualifiedName", FALSE>>, <<"Value", "Variant", FALSE>>>>,
  LiteralOperand |-> <<<<"Value", "Variant", FALSE>>>>,
  MdnsDiscoveryConfiguration |-> <<<<"MdnsServerName", "String", FALSE>>, <<"ServerCapabilities", "String", TRUE>>>>,
  MethodAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"Executable", "Boolean", FALSE>>, <<"UserExecutable", "Boolean", FALSE>>>>,
  ModelChangeStructureDataType |-> <<<<"Affected", "NodeId", FALSE>>, <<"AffectedType", "NodeId", FALSE>>, <<"Verb", "Byte", FALSE>>>>,
  ModificationInfo |-> <<<<"ModificationTime", "DateTime", FALSE>>, <<"UpdateType", "Int32", FALSE>>, <<"UserName", "String", FALSE>>>>,
  ModifyMonitoredItemsRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"TimestampsToReturn", "Int32", FALSE>>, <<"ItemsToModify", "MonitoredItemModifyRequest", TRUE>>>>,
  ModifyMonitoredItemsResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "MonitoredItemModifyResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  ModifySubscriptionRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"RequestedPublishingInterval", "Double", FALSE>>, <<"RequestedLifetimeCount", "UInt32", FALSE>>, <<"RequestedMaxKeepAliveCount", "UInt32", FALSE>>, <<"MaxNotificationsPerPublish", "UInt32", FALSE>>, <<"Priority", "Byte", FALSE>>>>,
  ModifySubscriptionResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"RevisedPublishingInterval", "Double", FALSE>>, <<"RevisedLifetimeCount", "UInt32", FALSE>>, <<"RevisedMaxKeepAliveCount", "UInt32", FALSE>>>>,
  MonitoredItemCreateRequest |-> <<<<"ItemToMonitor", "ReadValueId", FALSE>>, <<"MonitoringMode", "Int32", FALSE>>, <<"RequestedParameters", "MonitoringParameters", FALSE>>>>,
  MonitoredItemCreateResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"MonitoredItemId", "UInt32", FALSE>>, <<"RevisedSamplingInterval", "Double", FALSE>>, <<"RevisedQueueSize", "UInt32", FALSE>>, <<"FilterResult", "ExtensionObject", FALSE>>>>,
  MonitoredItemModifyRequest |-> <<<<"MonitoredItemId", "UInt32", FALSE>>, <<"RequestedParameters", "MonitoringParameters", FALSE>>>>,
  MonitoredItemModifyResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"RevisedSamplingInterval", "Double", FALSE>>, <<"RevisedQueueSize", "UInt32", FALSE>>, <<"FilterResult", "ExtensionObject", FALSE>>>>,
  MonitoredItemNotification |-> <<<<"ClientHandle", "UInt32", FALSE>>, <<"Value", "DataValue", FALSE>>>>,
  MonitoringFilter |-> <<>>,
  MonitoringFilterResult |-> <<>>,
  MonitoringParameters |-> <<<<"ClientHandle", "UInt32", FALSE>>, <<"SamplingInterval", "Double", FALSE>>, <<"Filter", "ExtensionObject", FALSE>>, <<"QueueSize", "UInt32", FALSE>>, <<"DiscardOldest", "Boolean", FALSE>>>>,
  NetworkAddressDataType |-> <<<<"NetworkInterface", "String", FALSE>>>>,
  NetworkAddressUrlDataType |-> <<<<"NetworkInterface", "String", FALSE>>, <<"Url", "String", FALSE>>>>,
  NetworkGroupDataType |-> <<<<"ServerUri", "String", FALSE>>, <<"NetworkPaths", "EndpointUrlListDataType", TRUE>>>>,
  NodeAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>>>,
  NodeReference |-> <<<<"NodeId", "NodeId", FALSE>>, <<"ReferenceTypeId", "NodeId", FALSE>>, <<"IsForward", "Boolean", FALSE>>, <<"ReferencedNodeIds", "NodeId", TRUE>>>>,
  NodeTypeDescription |-> <<<<"TypeDefinitionNode", "ExpandedNodeId", FALSE>>, <<"IncludeSubTypes", "Boolean", FALSE>>, <<"DataToReturn", "QueryDataDescription", TRUE>>>>,
  NotificationData |-> <<>>,
  NotificationMessage |-> <<<<"SequenceNumber", "UInt32", FALSE>>, <<"PublishTime", "DateTime", FALSE>>, <<"NotificationData", "ExtensionObject", TRUE>>>>,
  ObjectAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"EventNotifier", "Byte", FALSE>>>>,
  ObjectTypeAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"IsAbstract", "Boolean", FALSE>>>>,
  OpenSecureChannelRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"ClientProtocolVersion", "UInt32", FALSE>>, <<"RequestType", "Int32", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"ClientNonce", "ByteString", FALSE>>, <<"RequestedLifetime", "UInt32", FALSE>>>>,
  OpenSecureChannelResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"ServerProtocolVersion", "UInt32", FALSE>>, <<"SecurityToken", "ChannelSecurityToken", FALSE>>, <<"ServerNonce", "ByteString", FALSE>>>>,
  OptionSet |-> <<<<"Value", "ByteString", FALSE>>, <<"ValidBits", "ByteString", FALSE>>>>,
  Orientation |-> <<>>,
  ParsingResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"DataStatusCodes", "StatusCode", TRUE>>, <<"DataDiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  ProgramDiagnosticDataType |-> <<<<"CreateSessionId", "NodeId", FALSE>>, <<"CreateClientName", "String", FALSE>>, <<"InvocationCreationTime", "DateTime", FALSE>>, <<"LastTransitionTime", "DateTime", FALSE>>, <<"LastMethodCall", "String", FALSE>>, <<"LastMethodSessionId", "NodeId", FALSE>>, <<"LastMethodInputArguments", "Argument", TRUE>>, <<"LastMethodOutputArguments", "Argument", TRUE>>, <<"LastMethodCallTime", "DateTime", FALSE>>, <<"LastMethodReturnStatus", "StatusResult", FALSE>>>>,
  PubSubConfigurationDataType |-> <<<<"PublishedDataSets", "PublishedDataSetDataType", TRUE>>, <<"Connections", "PubSubConnectionDataType", TRUE>>, <<"Enabled", "Boolean", FALSE>>>>,
  PubSubConnectionDataType |-> <<<<"Name", "String", FALSE>>, <<"Enabled", "Boolean", FALSE>>, <<"PublisherId", "Variant", FALSE>>, <<"TransportProfileUri", "String", FALSE>>, <<"Address", "ExtensionObject", FALSE>>, <<"ConnectionProperties", "KeyValuePair", TRUE>>, <<"TransportSettings", "ExtensionObject", FALSE>>, <<"WriterGroups", "WriterGroupDataType", TRUE>>, <<"ReaderGroups", "ReaderGroupDataType", TRUE>>>>,
  PubSubGroupDataType |-> <<<<"Name", "String", FALSE>>, <<"Enabled", "Boolean", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"SecurityGroupId", "String", FALSE>>, <<"SecurityKeyServices", "EndpointDescription", TRUE>>, <<"MaxNetworkMessageSize", "UInt32", FALSE>>, <<"GroupProperties", "KeyValuePair", TRUE>>>>,
  PublishRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionAcknowledgements", "SubscriptionAcknowledgement", TRUE>>>>,
  PublishResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"AvailableSequenceNumbers", "UInt32", TRUE>>, <<"MoreNotifications", "Boolean", FALSE>>, <<"NotificationMessage", "NotificationMessage", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  PublishedDataItemsDataType |-> <<<<"PublishedData", "PublishedVariableDataType", TRUE>>>>,
  PublishedDataSetDataType |-> <<<<"Name", "String", FALSE>>, <<"DataSetFolder", "String", TRUE>>, <<"DataSetMetaData", "DataSetMetaDataType", FALSE>>, <<"ExtensionFields", "KeyValuePair", TRUE>>, <<"DataSetSource", "ExtensionObject", FALSE>>>>,
  PublishedDataSetSourceDataType |-> <<>>,
  PublishedEventsDataType |-> <<<<"EventNotifier", "NodeId", FALSE>>, <<"SelectedFields", "SimpleAttributeOperand", TRUE>>, <<"Filter", "ContentFilter", FALSE>>>>,
  PublishedVariableDataType |-> <<<<"PublishedVariable", "NodeId", FALSE>>, <<"AttributeId", "UInt32", FALSE>>, <<"SamplingIntervalHint", "Double", FALSE>>, <<"DeadbandType", "UInt32", FALSE>>, <<"DeadbandValue", "Double", FALSE>>, <<"IndexRange", "String", FALSE>>, <<"SubstituteValue", "Variant", FALSE>>, <<"MetaDataProperties", "QualifiedName", TRUE>>>>,
  QueryDataDescription |-> <<<<"RelativePath", "RelativePath", FALSE>>, <<"AttributeId", "UInt32", FALSE>>, <<"IndexRange", "String", FALSE>>>>,
  QueryDataSet |-> <<<<"NodeId", "ExpandedNodeId", FALSE>>, <<"TypeDefinitionNode", "ExpandedNodeId", FALSE>>, <<"Values", "Variant", TRUE>>>>,
  QueryFirstRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"View", "ViewDescription", FALSE>>, <<"NodeTypes", "NodeTypeDescription", TRUE>>, <<"Filter", "ContentFilter", FALSE>>, <<"MaxDataSetsToReturn", "UInt32", FALSE>>, <<"MaxReferencesToReturn", "UInt32", FALSE>>>>,
  QueryFirstResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"QueryDataSets", "QueryDataSet", TRUE>>, <<"ContinuationPoint", "ByteString", FALSE>>, <<"ParsingResults", "ParsingResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>, <<"FilterResult", "ContentFilterResult", FALSE>>>>,
  QueryNextRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"ReleaseContinuationPoint", "Boolean", FALSE>>, <<"ContinuationPoint", "ByteString", FALSE>>>>,
  QueryNextResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"QueryDataSets", "QueryDataSet", TRUE>>, <<"RevisedContinuationPoint", "ByteString", FALSE>>>>,
  Range |-> <<<<"Low", "Double", FALSE>>, <<"High", "Double", FALSE>>>>,
  RationalNumber |-> <<<<"Numerator", "Int32", FALSE>>, <<"Denominator", "UInt32", FALSE>>>>,
  ReadAnnotationDataDetails |-> <<<<"ReqTimes", "DateTime", TRUE>>>>,
  ReadAtTimeDetails |-> <<<<"ReqTimes", "DateTime", TRUE>>, <<"UseSimpleBounds", "Boolean", FALSE>>>>,
  ReadEventDetails |-> <<<<"NumValuesPerNode", "UInt32", FALSE>>, <<"StartTime", "DateTime", FALSE>>, <<"EndTime", "DateTime", FALSE>>, <<"Filter", "EventFilter", FALSE>>>>,
  ReadProcessedDetails |-> <<<<"StartTime", "DateTime", FALSE>>, <<"EndTime", "DateTime", FALSE>>, <<"ProcessingInterval", "Double", FALSE>>, <<"AggregateType", "NodeId", TRUE>>, <<"AggregateConfiguration", "AggregateConfiguration", FALSE>>>>,
  ReadRawModifiedDetails |-> <<<<"IsReadModified", "Boolean", FALSE>>, <<"StartTime", "DateTime", FALSE>>, <<"EndTime", "DateTime", FALSE>>, <<"NumValuesPerNode", "UInt32", FALSE>>, <<"ReturnBounds", "Boolean", FALSE>>>>,
  ReadRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"MaxAge", "Double", FALSE>>, <<"TimestampsToReturn", "Int32", FALSE>>, <<"NodesToRead", "ReadValueId", TRUE>>>>,
  ReadResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "DataValue", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  ReadValueId |-> <<<<"NodeId", "NodeId", FALSE>>, <<"AttributeId", "UInt32", FALSE>>, <<"IndexRange", "String", FALSE>>, <<"DataEncoding", "QualifiedName", FALSE>>>>,
  ReaderGroupDataType |-> <<<<"Name", "String", FALSE>>, <<"Enabled", "Boolean", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"SecurityGroupId", "String", FALSE>>, <<"SecurityKeyServices", "EndpointDescription", TRUE>>, <<"MaxNetworkMessageSize", "UInt32", FALSE>>, <<"GroupProperties", "KeyValuePair", TRUE>>, <<"TransportSettings", "ExtensionObject", FALSE>>, <<"MessageSettings", "ExtensionObject", FALSE>>, <<"DataSetReaders", "DataSetReaderDataType", TRUE>>>>,
  ReaderGroupMessageDataType |-> <<>>,
  ReaderGroupTransportDataType |-> <<>>,
  RedundantServerDataType |-> <<<<"ServerId", "String", FALSE>>, <<"ServiceLevel", "Byte", FALSE>>, <<"ServerState", "Int32", FALSE>>>>,
  ReferenceDescription |-> <<<<"ReferenceTypeId", "NodeId", FALSE>>, <<"IsForward", "Boolean", FALSE>>, <<"NodeId", "ExpandedNodeId", FALSE>>, <<"BrowseName", "QualifiedName", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"NodeClass", "Int32", FALSE>>, <<"TypeDefinition", "ExpandedNodeId", FALSE>>>>,
  ReferenceTypeAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"IsAbstract", "Boolean", FALSE>>, <<"Symmetric", "Boolean", FALSE>>, <<"InverseName", "LocalizedText", FALSE>>>>,
  RegisterNodesRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"NodesToRegister", "NodeId", TRUE>>>>,
  RegisterNodesResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"RegisteredNodeIds", "NodeId", TRUE>>>>,
  RegisterServer2Request |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"Server", "RegisteredServer", FALSE>>, <<"DiscoveryConfiguration", "ExtensionObject", TRUE>>>>,
  RegisterServer2Response |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"ConfigurationResults", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  RegisterServerRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"Server", "RegisteredServer", FALSE>>>>,
  RegisterServerResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>>>,
  RegisteredServer |-> <<<<"ServerUri", "String", FALSE>>, <<"ProductUri", "String", FALSE>>, <<"ServerNames", "LocalizedText", TRUE>>, <<"ServerType", "Int32", FALSE>>, <<"GatewayServerUri", "String", FALSE>>, <<"DiscoveryUrls", "String", TRUE>>, <<"SemaphoreFilePath", "String", FALSE>>, <<"IsOnline", "Boolean", FALSE>>>>,
  RelativePath |-> <<<<"Elements", "RelativePathElement", TRUE>>>>,
  RelativePathElement |-> <<<<"ReferenceTypeId", "NodeId", FALSE>>, <<"IsInverse", "Boolean", FALSE>>, <<"IncludeSubtypes", "Boolean", FALSE>>, <<"TargetName", "QualifiedName", FALSE>>>>,
  RepublishRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"RetransmitSequenceNumber", "UInt32", FALSE>>>>,
  RepublishResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"NotificationMessage", "NotificationMessage", FALSE>>>>,
  RequestHeader |-> <<<<"AuthenticationToken", "NodeId", FALSE>>, <<"Timestamp", "DateTime", FALSE>>, <<"RequestHandle", "UInt32", FALSE>>, <<"ReturnDiagnostics", "UInt32", FALSE>>, <<"AuditEntryId", "String", FALSE>>, <<"TimeoutHint", "UInt32", FALSE>>, <<"AdditionalHeader", "ExtensionObject", FALSE>>>>,
  ResponseHeader |-> <<<<"Timestamp", "DateTime", FALSE>>, <<"RequestHandle", "UInt32", FALSE>>, <<"ServiceResult", "StatusCode", FALSE>>, <<"ServiceDiagnostics", "DiagnosticInfo", FALSE>>, <<"StringTable", "String", TRUE>>, <<"AdditionalHeader", "ExtensionObject", FALSE>>>>,
  RolePermissionType |-> <<<<"RoleId", "NodeId", FALSE>>, <<"Permissions", "Int32", FALSE>>>>,
  SamplingIntervalDiagnosticsDataType |-> <<<<"SamplingInterval", "Double", FALSE>>, <<"MonitoredItemCount", "UInt32", FALSE>>, <<"MaxMonitoredItemCount", "UInt32", FALSE>>, <<"DisabledMonitoredItemCount", "UInt32", FALSE>>>>,
  SemanticChangeStructureDataType |-> <<<<"Affected", "NodeId", FALSE>>, <<"AffectedType", "NodeId", FALSE>>>>,
  ServerDiagnosticsSummaryDataType |-> <<<<"ServerViewCount", "UInt32", FALSE>>, <<"CurrentSessionCount", "UInt32", FALSE>>, <<"CumulatedSessionCount", "UInt32", FALSE>>, <<"SecurityRejectedSessionCount", "UInt32", FALSE>>, <<"RejectedSessionCount", "UInt32", FALSE>>, <<"SessionTimeoutCount", "UInt32", FALSE>>, <<"SessionAbortCount", "UInt32", FALSE>>, <<"CurrentSubscriptionCount", "UInt32", FALSE>>, <<"CumulatedSubscriptionCount", "UInt32", FALSE>>, <<"PublishingIntervalCount", "UInt32", FALSE>>, <<"SecurityRejectedRequestsCount", "UInt32", FALSE>>, <<"RejectedRequestsCount", "UInt32", FALSE>>>>,
  ServerOnNetwork |-> <<<<"RecordId", "UInt32", FALSE>>, <<"ServerName", "String", FALSE>>, <<"DiscoveryUrl", "String", FALSE>>, <<"ServerCapabilities", "String", TRUE>>>>,
  ServerStatusDataType |-> <<<<"StartTime", "DateTime", FALSE>>, <<"CurrentTime", "DateTime", FALSE>>, <<"State", "Int32", FALSE>>, <<"BuildInfo", "BuildInfo", FALSE>>, <<"SecondsTillShutdown", "UInt32", FALSE>>, <<"ShutdownReason", "LocalizedText", FALSE>>>>,
  ServiceCounterDataType |-> <<<<"TotalCount", "UInt32", FALSE>>, <<"ErrorCount", "UInt32", FALSE>>>>,
  ServiceFault |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>>>,
  SessionDiagnosticsDataType |-> <<<<"SessionId", "NodeId", FALSE>>, <<"SessionName", "String", FALSE>>, <<"ClientDescription", "ApplicationDescription", FALSE>>, <<"ServerUri", "String", FALSE>>, <<"EndpointUrl", "String", FALSE>>, <<"LocaleIds", "String", TRUE>>, <<"ActualSessionTimeout", "Double", FALSE>>, <<"MaxResponseMessageSize", "UInt32", FALSE>>, <<"ClientConnectionTime", "DateTime", FALSE>>, <<"ClientLastContactTime", "DateTime", FALSE>>, <<"CurrentSubscriptionsCount", "UInt32", FALSE>>, <<"CurrentMonitoredItemsCount", "UInt32", FALSE>>, <<"CurrentPublishRequestsInQueue", "UInt32", FALSE>>, <<"TotalRequestCount", "ServiceCounterDataType", FALSE>>, <<"UnauthorizedRequestCount", "UInt32", FALSE>>, <<"ReadCount", "ServiceCounterDataType", FALSE>>, <<"HistoryReadCount", "ServiceCounterDataType", FALSE>>, <<"WriteCount", "ServiceCounterDataType", FALSE>>, <<"HistoryUpdateCount", "ServiceCounterDataType", FALSE>>, <<"CallCount", "ServiceCounterDataType", FALSE>>, <<"CreateMonitoredItemsCount", "ServiceCounterDataType", FALSE>>, <<"ModifyMonitoredItemsCount", "ServiceCounterDataType", FALSE>>, <<"SetMonitoringModeCount", "ServiceCounterDataType", FALSE>>, <<"SetTriggeringCount", "ServiceCounterDataType", FALSE>>, <<"DeleteMonitoredItemsCount", "ServiceCounterDataType", FALSE>>, <<"CreateSubscriptionCount", "ServiceCounterDataType", FALSE>>, <<"ModifySubscriptionCount", "ServiceCounterDataType", FALSE>>, <<"SetPublishingModeCount", "ServiceCounterDataType", FALSE>>, <<"PublishCount", "ServiceCounterDataType", FALSE>>, <<"RepublishCount", "ServiceCounterDataType", FALSE>>, <<"TransferSubscriptionsCount", "ServiceCounterDataType", FALSE>>, <<"DeleteSubscriptionsCount", "ServiceCounterDataType", FALSE>>, <<"AddNodesCount", "ServiceCounterDataType", FALSE>>, <<"AddReferencesCount", "ServiceCounterDataType", FALSE>>, <<"DeleteNodesCount", "ServiceCounterDataType", FALSE>>, <<"DeleteReferencesCount", "ServiceCounterDataType", FALSE>>, <<"BrowseCount", "ServiceCounterDataType", FALSE>>, <<"BrowseNextCount", "ServiceCounterDataType", FALSE>>, <<"TranslateBrowsePathsToNodeIdsCount", "ServiceCounterDataType", FALSE>>, <<"QueryFirstCount", "ServiceCounterDataType", FALSE>>, <<"QueryNextCount", "ServiceCounterDataType", FALSE>>, <<"RegisterNodesCount", "ServiceCounterDataType", FALSE>>, <<"UnregisterNodesCount", "ServiceCounterDataType", FALSE>>>>,
  SessionSecurityDiagnosticsDataType |-> <<<<"SessionId", "NodeId", FALSE>>, <<"ClientUserIdOfSession", "String", FALSE>>, <<"ClientUserIdHistory", "String", TRUE>>, <<"AuthenticationMechanism", "String", FALSE>>, <<"Encoding", "String", FALSE>>, <<"TransportProtocol", "String", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"SecurityPolicyUri", "String", FALSE>>, <<"ClientCertificate", "ByteString", FALSE>>>>,
  SessionlessInvokeRequestType |-> <<<<"UrisVersion", "UInt32", TRUE>>, <<"NamespaceUris", "String", TRUE>>, <<"ServerUris", "String", TRUE>>, <<"LocaleIds", "String", TRUE>>, <<"ServiceId", "UInt32", FALSE>>>>,
  SessionlessInvokeResponseType |-> <<<<"NamespaceUris", "String", TRUE>>, <<"ServerUris", "String", TRUE>>, <<"ServiceId", "UInt32", FALSE>>>>,
  SetMonitoringModeRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"MonitoringMode", "Int32", FALSE>>, <<"MonitoredItemIds", "UInt32", TRUE>>>>,
  SetMonitoringModeResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  SetPublishingModeRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"PublishingEnabled", "Boolean", FALSE>>, <<"SubscriptionIds", "UInt32", TRUE>>>>,
  SetPublishingModeResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  SetTriggeringRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"TriggeringItemId", "UInt32", FALSE>>, <<"LinksToAdd", "UInt32", TRUE>>, <<"LinksToRemove", "UInt32", TRUE>>>>,
  SetTriggeringResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"AddResults", "StatusCode", TRUE>>, <<"AddDiagnosticInfos", "DiagnosticInfo", TRUE>>, <<"RemoveResults", "StatusCode", TRUE>>, <<"RemoveDiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  SignatureData |-> <<<<"Algorithm", "String", FALSE>>, <<"Signature", "ByteString", FALSE>>>>,
  SignedSoftwareCertificate |-> <<<<"CertificateData", "ByteString", FALSE>>, <<"Signature", "ByteString", FALSE>>>>,
  SimpleAttributeOperand |-> <<<<"TypeDefinitionId", "NodeId", FALSE>>, <<"BrowsePath", "QualifiedName", TRUE>>, <<"AttributeId", "UInt32", FALSE>>, <<"IndexRange", "String", FALSE>>>>,
  SimpleTypeDescription |-> <<<<"DataTypeId", "NodeId", FALSE>>, <<"Name", "QualifiedName", FALSE>>, <<"BaseDataType", "NodeId", FALSE>>, <<"BuiltInType", "Byte", FALSE>>>>,
  StatusChangeNotification |-> <<<<"Status", "StatusCode", FALSE>>, <<"DiagnosticInfo", "DiagnosticInfo", FALSE>>>>,
  StatusResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"DiagnosticInfo", "DiagnosticInfo", FALSE>>>>,
  StructureDefinition |-> <<<<"DefaultEncodingId", "NodeId", FALSE>>, <<"BaseDataType", "NodeId", FALSE>>, <<"StructureType", "Int32", FALSE>>, <<"Fields", "StructureField", TRUE>>>>,
  StructureDescription |-> <<<<"DataTypeId", "NodeId", FALSE>>, <<"Name", "QualifiedName", FALSE>>, <<"StructureDefinition", "StructureDefinition", FALSE>>>>,
  StructureField |-> <<<<"Name", "String", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"DataType", "NodeId", FALSE>>, <<"ValueRank", "Int32", FALSE>>, <<"ArrayDimensions", "UInt32", TRUE>>, <<"MaxStringLength", "UInt32", FALSE>>, <<"IsOptional", "Boolean", FALSE>>>>,
  SubscribedDataSetDataType |-> <<>>,
  SubscribedDataSetMirrorDataType |-> <<<<"ParentNodeName", "String", FALSE>>, <<"RolePermissions", "RolePermissionType", TRUE>>>>,
  SubscriptionAcknowledgement |-> <<<<"SubscriptionId", "UInt32", FALSE>>, <<"SequenceNumber", "UInt32", FALSE>>>>,
  SubscriptionDiagnosticsDataType |-> <<<<"SessionId", "NodeId", FALSE>>, <<"SubscriptionId", "UInt32", FALSE>>, <<"Priority", "Byte", FALSE>>, <<"PublishingInterval", "Double", FALSE>>, <<"MaxKeepAliveCount", "UInt32", FALSE>>, <<"MaxLifetimeCount", "UInt32", FALSE>>, <<"MaxNotificationsPerPublish", "UInt32", FALSE>>, <<"PublishingEnabled", "Boolean", FALSE>>, <<"ModifyCount", "UInt32", FALSE>>, <<"EnableCount", "UInt32", FALSE>>, <<"DisableCount", "UInt32", FALSE>>, <<"RepublishRequestCount", "UInt32", FALSE>>, <<"RepublishMessageRequestCount", "UInt32", FALSE>>, <<"RepublishMessageCount", "UInt32", FALSE>>, <<"TransferRequestCount", "UInt32", FALSE>>, <<"TransferredToAltClientCount", "UInt32", FALSE>>, <<"TransferredToSameClientCount", "UInt32", FALSE>>, <<"PublishRequestCount", "UInt32", FALSE>>, <<"DataChangeNotificationsCount", "UInt32", FALSE>>, <<"EventNotificationsCount", "UInt32", FALSE>>, <<"NotificationsCount", "UInt32", FALSE>>, <<"LatePublishRequestCount", "UInt32", FALSE>>, <<"CurrentKeepAliveCount", "UInt32", FALSE>>, <<"CurrentLifetimeCount", "UInt32", FALSE>>, <<"UnacknowledgedMessageCount", "UInt32", FALSE>>, <<"DiscardedMessageCount", "UInt32", FALSE>>, <<"MonitoredItemCount", "UInt32", FALSE>>, <<"DisabledMonitoredItemCount", "UInt32", FALSE>>, <<"MonitoringQueueOverflowCount", "UInt32", FALSE>>, <<"NextSequenceNumber", "UInt32", FALSE>>, <<"EventQueueOverFlowCount", "UInt32", FALSE>>>>,
  TargetVariablesDataType |-> <<<<"TargetVariables", "FieldTargetDataType", TRUE>>>>,
  ThreeDCartesianCoordinates |-> <<<<"X", "Double", FALSE>>, <<"Y", "Double", FALSE>>, <<"Z", "Double", FALSE>>>>,
  ThreeDFrame |-> <<<<"CartesianCoordinates", "ThreeDCartesianCoordinates", FALSE>>, <<"Orientation", "ThreeDOrientation", FALSE>>>>,
  ThreeDOrientation |-> <<<<"A", "Double", FALSE>>, <<"B", "Double", FALSE>>, <<"C", "Double", FALSE>>>>,
  ThreeDVector |-> <<<<"X", "Double", FALSE>>, <<"Y", "Double", FALSE>>, <<"Z", "Double", FALSE>>>>,
  TimeZoneDataType |-> <<<<"Offset", "Int16", FALSE>>, <<"DaylightSavingInOffset", "Boolean", FALSE>>>>,
  TransferResult |-> <<<<"StatusCode", "StatusCode", FALSE>>, <<"AvailableSequenceNumbers", "UInt32", TRUE>>>>,
  TransferSubscriptionsRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"SubscriptionIds", "UInt32", TRUE>>, <<"SendInitialValues", "Boolean", FALSE>>>>,
  TransferSubscriptionsResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "TransferResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  TranslateBrowsePathsToNodeIdsRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"BrowsePaths", "BrowsePath", TRUE>>>>,
  TranslateBrowsePathsToNodeIdsResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "BrowsePathResult", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  TrustListDataType |-> <<<<"SpecifiedLists", "UInt32", FALSE>>, <<"TrustedCertificates", "ByteString", TRUE>>, <<"TrustedCrls", "ByteString", TRUE>>, <<"IssuerCertificates", "ByteString", TRUE>>, <<"IssuerCrls", "ByteString", TRUE>>>>,
  UABinaryFileDataType |-> <<<<"Namespaces", "String", TRUE>>, <<"StructureDataTypes", "StructureDescription", TRUE>>, <<"EnumDataTypes", "EnumDescription", TRUE>>, <<"SimpleDataTypes", "SimpleTypeDescription", TRUE>>, <<"SchemaLocation", "String", FALSE>>, <<"FileHeader", "KeyValuePair", TRUE>>, <<"Body", "Variant", FALSE>>>>,
  UadpDataSetReaderMessageDataType |-> <<<<"GroupVersion", "UInt32", FALSE>>, <<"NetworkMessageNumber", "UInt16", FALSE>>, <<"DataSetOffset", "UInt16", FALSE>>, <<"DataSetClassId", "Guid", FALSE>>, <<"NetworkMessageContentMask", "Int32", FALSE>>, <<"DataSetMessageContentMask", "Int32", FALSE>>, <<"PublishingInterval", "Double", FALSE>>, <<"ReceiveOffset", "Double", FALSE>>, <<"ProcessingOffset", "Double", FALSE>>>>,
  UadpDataSetWriterMessageDataType |-> <<<<"DataSetMessageContentMask", "Int32", FALSE>>, <<"ConfiguredSize", "UInt16", FALSE>>, <<"NetworkMessageNumber", "UInt16", FALSE>>, <<"DataSetOffset", "UInt16", FALSE>>>>,
  UadpWriterGroupMessageDataType |-> <<<<"GroupVersion", "UInt32", FALSE>>, <<"DataSetOrdering", "Int32", FALSE>>, <<"NetworkMessageContentMask", "Int32", FALSE>>, <<"SamplingOffset", "Double", FALSE>>, <<"PublishingOffset", "Double", TRUE>>>>,
  Union |-> <<>>,
  UnregisterNodesRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"NodesToUnregister", "NodeId", TRUE>>>>,
  UnregisterNodesResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>>>,
  UpdateDataDetails |-> <<<<"NodeId", "NodeId", FALSE>>, <<"PerformInsertReplace", "Int32", FALSE>>, <<"UpdateValues", "DataValue", TRUE>>>>,
  UpdateEventDetails |-> <<<<"NodeId", "NodeId", FALSE>>, <<"PerformInsertReplace", "Int32", FALSE>>, <<"Filter", "EventFilter", FALSE>>, <<"EventData", "HistoryEventFieldList", TRUE>>>>,
  UpdateStructureDataDetails |-> <<<<"NodeId", "NodeId", FALSE>>, <<"PerformInsertReplace", "Int32", FALSE>>, <<"UpdateValues", "DataValue", TRUE>>>>,
  UserIdentityToken |-> <<<<"PolicyId", "String", FALSE>>>>,
  UserNameIdentityToken |-> <<<<"PolicyId", "String", FALSE>>, <<"UserName", "String", FALSE>>, <<"Password", "ByteString", FALSE>>, <<"EncryptionAlgorithm", "String", FALSE>>>>,
  UserTokenPolicy |-> <<<<"PolicyId", "String", FALSE>>, <<"TokenType", "Int32", FALSE>>, <<"IssuedTokenType", "String", FALSE>>, <<"IssuerEndpointUrl", "String", FALSE>>, <<"SecurityPolicyUri", "String", FALSE>>>>,
  VariableAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"Value", "Variant", FALSE>>, <<"DataType", "NodeId", FALSE>>, <<"ValueRank", "Int32", FALSE>>, <<"ArrayDimensions", "UInt32", TRUE>>, <<"AccessLevel", "Byte", FALSE>>, <<"UserAccessLevel", "Byte", FALSE>>, <<"MinimumSamplingInterval", "Double", FALSE>>, <<"Historizing", "Boolean", FALSE>>>>,
  VariableTypeAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"Value", "Variant", FALSE>>, <<"DataType", "NodeId", FALSE>>, <<"ValueRank", "Int32", FALSE>>, <<"ArrayDimensions", "UInt32", TRUE>>, <<"IsAbstract", "Boolean", FALSE>>>>,
  Vector |-> <<>>,
  ViewAttributes |-> <<<<"SpecifiedAttributes", "UInt32", FALSE>>, <<"DisplayName", "LocalizedText", FALSE>>, <<"Description", "LocalizedText", FALSE>>, <<"WriteMask", "UInt32", FALSE>>, <<"UserWriteMask", "UInt32", FALSE>>, <<"ContainsNoLoops", "Boolean", FALSE>>, <<"EventNotifier", "Byte", FALSE>>>>,
  ViewDescription |-> <<<<"ViewId", "NodeId", FALSE>>, <<"Timestamp", "DateTime", FALSE>>, <<"ViewVersion", "UInt32", FALSE>>>>,
  WriteRequest |-> <<<<"RequestHeader", "RequestHeader", FALSE>>, <<"NodesToWrite", "WriteValue", TRUE>>>>,
  WriteResponse |-> <<<<"ResponseHeader", "ResponseHeader", FALSE>>, <<"Results", "StatusCode", TRUE>>, <<"DiagnosticInfos", "DiagnosticInfo", TRUE>>>>,
  WriteValue |-> <<<<"NodeId", "NodeId", FALSE>>, <<"AttributeId", "UInt32", FALSE>>, <<"IndexRange", "String", FALSE>>, <<"Value", "DataValue", FALSE>>>>,
  WriterGroupDataType |-> <<<<"Name", "String", FALSE>>, <<"Enabled", "Boolean", FALSE>>, <<"SecurityMode", "Int32", FALSE>>, <<"SecurityGroupId", "String", FALSE>>, <<"SecurityKeyServices", "EndpointDescription", TRUE>>, <<"MaxNetworkMessageSize", "UInt32", FALSE>>, <<"GroupProperties", "KeyValuePair", TRUE>>, <<"WriterGroupId", "UInt16", FALSE>>, <<"PublishingInterval", "Double", FALSE>>, <<"KeepAliveTime", "Double", FALSE>>, <<"Priority", "Byte", FALSE>>, <<"LocaleIds", "String", TRUE>>, <<"HeaderLayoutUri", "String", FALSE>>, <<"TransportSettings", "ExtensionObject", FALSE>>, <<"MessageSettings", "ExtensionObject", FALSE>>, <<"DataSetWriters", "DataSetWriterDataType", TRUE>>>>,
  WriterGroupMessageDataType |-> <<>>,
  WriterGroupTransportDataType |-> <<>>,
  X509IdentityToken |-> <<<<"PolicyId", "String", FALSE>>, <<"CertificateData", "ByteString", FALSE>>>>,
  XVType |-> <<<<"X", "Double", FALSE>>, <<"Value", "Float", FALSE>>>>
]
EncodingId == [
  ActivateSessionRequest |-> 467,
  ActivateSessionResponse |-> 470,
  AddNodesItem |-> 378,
  AddNodesRequest |-> 488,
  AddNodesResponse |-> 491,
  AddNodesResult |-> 485,
  AddReferencesItem |-> 381,
  AddReferencesRequest |-> 494,
  AddReferencesResponse |-> 497,
  AdditionalParametersType |-> 17537,
  AggregateConfiguration |-> 950,
  AggregateFilter |-> 730,
  AggregateFilterResult |-> 739,
  AliasNameDataType |-> 23499,
  Annotation |-> 893,
  AnonymousIdentityToken |-> 321,
  ApplicationDescription |-> 310,
  Argument |-> 298,
  AttributeOperand |-> 600,
  AxisInformation |-> 12089,
  BrokerConnectionTransportDataType |-> 15479,
  BrokerDataSetReaderTransportDataType |-> 15733,
  BrokerDataSetWriterTransportDataType |-> 15729,
  BrokerWriterGroupTransportDataType |-> 15727,
  BrowseDescription |-> 516,
  BrowseNextRequest |-> 533,
  BrowseNextResponse |-> 536,
  BrowsePath |-> 545,
  BrowsePathResult |-> 551,
  BrowsePathTarget |-> 548,
  BrowseRequest |-> 527,
  BrowseResponse |-> 530,
  BrowseResult |-> 524,
  BuildInfo |-> 340,
  CallMethodRequest |-> 706,
  CallMethodResult |-> 709,
  CallRequest |-> 712,
  CallResponse |-> 715,
  CancelRequest |-> 479,
  CancelResponse |-> 482,
  CartesianCoordinates |-> 18818,
  ChannelSecurityToken |-> 443,
  CloseSecureChannelRequest |-> 452,
  CloseSecureChannelResponse |-> 455,
  CloseSessionRequest |-> 473,
  CloseSessionResponse |-> 476,
  ComplexNumberType |-> 12181,
  ConfigurationVersionDataType |-> 14847,
  ConnectionTransportDataType |-> 15695,
  ContentFilter |-> 588,
  ContentFilterElement |-> 585,
  ContentFilterElementResult |-> 606,
  ContentFilterResult |-> 609,
  CreateMonitoredItemsRequest |-> 751,
  CreateMonitoredItemsResponse |-> 754,
  CreateSessionRequest |-> 461,
  CreateSessionResponse |-> 464,
  CreateSubscriptionRequest |-> 787,
  CreateSubscriptionResponse |-> 790,
  CurrencyUnitType |-> 23507,
  DataChangeFilter |-> 724,
  DataChangeNotification |-> 811,
  DataSetMetaDataType |-> 124,
  DataSetReaderDataType |-> 15703,
  DataSetReaderMessageDataType |-> 15706,
  DataSetReaderTransportDataType |-> 15705,
  DataSetWriterDataType |-> 15682,
  DataSetWriterMessageDataType |-> 15688,
  DataSetWriterTransportDataType |-> 15683,
  DataTypeAttributes |-> 372,
  DataTypeDescription |-> 125,
  DataTypeSchemaHeader |-> 15676,
  DatagramConnectionTransportDataType |-> 17468,
  DatagramWriterGroupTransportDataType |-> 21155,
  DecimalDataType |-> 17863,
  DeleteAtTimeDetails |-> 691,
  DeleteEventDetails |-> 694,
  DeleteMonitoredItemsRequest |-> 781,
  DeleteMonitoredItemsResponse |-> 784,
  DeleteNodesItem |-> 384,
  DeleteNodesRequest |-> 500,
  DeleteNodesResponse |-> 503,
  DeleteRawModifiedDetails |-> 688,
  DeleteReferencesItem |-> 387,
  DeleteReferencesRequest |-> 506,
  DeleteReferencesResponse |-> 509,
  DeleteSubscriptionsRequest |-> 847,
  DeleteSubscriptionsResponse |-> 850,
  DiscoveryConfiguration |-> 12900,
  DoubleComplexNumberType |-> 12182,
  EUInformation |-> 889,
  ElementOperand |-> 594,
  EndpointConfiguration |-> 333,
  EndpointDescription |-> 314,
  EndpointType |-> 15671,
  EndpointUrlListDataType |-> 11957,
  EnumDefinition |-> 123,
  EnumDescription |-> 127,
  EnumField |-> 14845,
  EnumValueType |-> 8251,
  EphemeralKeyType |-> 17549,
  EventFieldList |-> 919,
  EventFilter |-> 727,
  EventFilterResult |-> 736,
  EventNotificationList |-> 916,
  FieldMetaData |-> 14839,
  FieldTargetDataType |-> 14848,
  FilterOperand |-> 591,
  FindServersOnNetworkRequest |-> 12208,
  FindServersOnNetworkResponse |-> 12209,
  FindServersRequest |-> 422,
  FindServersResponse |-> 425,
  Frame |-> 18822,
  GenericAttributeValue |-> 17610,
  GenericAttributes |-> 17611,
  GetEndpointsRequest |-> 428,
  GetEndpointsResponse |-> 431,
  HistoryData |-> 658,
  HistoryEvent |-> 661,
  HistoryEventFieldList |-> 922,
  HistoryModifiedData |-> 11227,
  HistoryReadDetails |-> 643,
  HistoryReadRequest |-> 664,
  HistoryReadResponse |-> 667,
  HistoryReadResult |-> 640,
  HistoryReadValueId |-> 637,
  HistoryUpdateDetails |-> 679,
  HistoryUpdateRequest |-> 700,
  HistoryUpdateResponse |-> 703,
  HistoryUpdateResult |-> 697,
  IdentityMappingRuleType |-> 15736,
  IssuedIdentityToken |-> 940,
  JsonDataSetReaderMessageDataType |-> 15725,
  JsonDataSetWriterMessageDataType |-> 15724,
  JsonWriterGroupMessageDataType |-> 15719,
  KeyValuePair |-> 14846,
  LiteralOperand |-> 597,
  MdnsDiscoveryConfiguration |-> 12901,
  MethodAttributes |-> 360,
  ModelChangeStructureDataType |-> 879,
  ModificationInfo |-> 11226,
  ModifyMonitoredItemsRequest |-> 763,
  ModifyMonitoredItemsResponse |-> 766,
  ModifySubscriptionRequest |-> 793,
  ModifySubscriptionResponse |-> 796,
  MonitoredItemCreateRequest |-> 745,
  MonitoredItemCreateResult |-> 748,
  MonitoredItemModifyRequest |-> 757,
  MonitoredItemModifyResult |-> 760,
  MonitoredItemNotification |-> 808,
  MonitoringFilter |-> 721,
  MonitoringFilterResult |-> 733,
  MonitoringParameters |-> 742,
  NetworkAddressDataType |-> 21151,
  NetworkAddressUrlDataType |-> 21152,
  NetworkGroupDataType |-> 11958,
  NodeAttributes |-> 351,
  NodeReference |-> 582,
  NodeTypeDescription |-> 575,
  NotificationData |-> 947,
  NotificationMessage |-> 805,
  ObjectAttributes |-> 354,
  ObjectTypeAttributes |-> 363,
  OpenSecureChannelRequest |-> 446,
  OpenSecureChannelResponse |-> 449,
  OptionSet |-> 12765,
  Orientation |-> 18820,
  ParsingResult |-> 612,
  ProgramDiagnosticDataType |-> 896,
  PubSubConfigurationDataType |-> 21154,
  PubSubConnectionDataType |-> 15694,
  PubSubGroupDataType |-> 15689,
  PublishRequest |-> 826,
  PublishResponse |-> 829,
  PublishedDataItemsDataType |-> 15679,
  PublishedDataSetDataType |-> 15677,
  PublishedDataSetSourceDataType |-> 15678,
  PublishedEventsDataType |-> 15681,
  PublishedVariableDataType |-> 14323,
  QueryDataDescription |-> 572,
  QueryDataSet |-> 579,
  QueryFirstRequest |-> 615,
  QueryFirstResponse |-> 618,
  QueryNextRequest |-> 621,
  QueryNextResponse |-> 624,
  Range |-> 886,
  RationalNumber |-> 18815,
  ReadAnnotationDataDetails |-> 23500,
  ReadAtTimeDetails |-> 655,
  ReadEventDetails |-> 646,
  ReadProcessedDetails |-> 652,
  ReadRawModifiedDetails |-> 649,
  ReadRequest |-> 631,
  ReadResponse |-> 634,
  ReadValueId |-> 628,
  ReaderGroupDataType |-> 21153,
  ReaderGroupMessageDataType |-> 15702,
  ReaderGroupTransportDataType |-> 15701,
  RedundantServerDataType |-> 855,
  ReferenceDescription |-> 520,
  ReferenceTypeAttributes |-> 369,
  RegisterNodesRequest |-> 560,
  RegisterNodesResponse |-> 563,
  RegisterServer2Request |-> 12211,
  RegisterServer2Response |-> 12212,
  RegisterServerRequest |-> 437,
  RegisterServerResponse |-> 440,
  RegisteredServer |-> 434,
  RelativePath |-> 542,
  RelativePathElement |-> 539,
  RepublishRequest |-> 832,
  RepublishResponse |-> 835,
  RequestHeader |-> 391,
  ResponseHeader |-> 394,
  RolePermissionType |-> 128,
  SamplingIntervalDiagnosticsDataType |-> 858,
  SemanticChangeStructureDataType |-> 899,
  ServerDiagnosticsSummaryDataType |-> 861,
  ServerOnNetwork |-> 12207,
  ServerStatusDataType |-> 864,
  ServiceCounterDataType |-> 873,
  ServiceFault |-> 397,
  SessionDiagnosticsDataType |-> 867,
  SessionSecurityDiagnosticsDataType |-> 870,
  SessionlessInvokeRequestType |-> 15903,
  SessionlessInvokeResponseType |-> 21001,
  SetMonitoringModeRequest |-> 769,
  SetMonitoringModeResponse |-> 772,
  SetPublishingModeRequest |-> 799,
  SetPublishingModeResponse |-> 802,
  SetTriggeringRequest |-> 775,
  SetTriggeringResponse |-> 778,
  SignatureData |-> 458,
  SignedSoftwareCertificate |-> 346,
  SimpleAttributeOperand |-> 603,
  SimpleTypeDescription |-> 15421,
  StatusChangeNotification |-> 820,
  StatusResult |-> 301,
  StructureDefinition |-> 122,
  StructureDescription |-> 126,
  StructureField |-> 14844,
  SubscribedDataSetDataType |-> 15707,
  SubscribedDataSetMirrorDataType |-> 15713,
  SubscriptionAcknowledgement |-> 823,
  SubscriptionDiagnosticsDataType |-> 876,
  TargetVariablesDataType |-> 15712,
  ThreeDCartesianCoordinates |-> 18819,
  ThreeDFrame |-> 18823,
  ThreeDOrientation |-> 18821,
  ThreeDVector |-> 18817,
  TimeZoneDataType |-> 8917,
  TransferResult |-> 838,
  TransferSubscriptionsRequest |-> 841,
  TransferSubscriptionsResponse |-> 844,
  TranslateBrowsePathsToNodeIdsRequest |-> 554,
  TranslateBrowsePathsToNodeIdsResponse |-> 557,
  TrustListDataType |-> 12680,
  UABinaryFileDataType |-> 15422,
  UadpDataSetReaderMessageDataType |-> 15718,
  UadpDataSetWriterMessageDataType |-> 15717,
  UadpWriterGroupMessageDataType |-> 15715,
  Union |-> 12766,
  UnregisterNodesRequest |-> 566,
  UnregisterNodesResponse |-> 569,
  UpdateDataDetails |-> 682,
  UpdateEventDetails |-> 685,
  UpdateStructureDataDetails |-> 11300,
  UserIdentityToken |-> 318,
  UserNameIdentityToken |-> 324,
  UserTokenPolicy |-> 306,
  VariableAttributes |-> 357,
  VariableTypeAttributes |-> 366,
  Vector |-> 18816,
  ViewAttributes |-> 375,
  ViewDescription |-> 513,
  WriteRequest |-> 673,
  WriteResponse |-> 676,
  WriteValue |-> 670,
  WriterGroupDataType |-> 21150,
  WriterGroupMessageDataType |-> 15693,
  WriterGroupTransportDataType |-> 15691,
  X509IdentityToken |-> 327,
  XVType |-> 12090
]
Flat == <<"AddNodesResult", "AddReferencesItem", "AggregateConfiguration", "AggregateFilter", "AggregateFilterResult", "AliasNameDataType", "Annotation", "AnonymousIdentityToken", "ApplicationDescription", "Argument", "AttributeOperand", "AxisInformation", "BrokerConnectionTransportDataType", "BrokerDataSetReaderTransportDataType", "BrokerDataSetWriterTransportDataType", "BrokerWriterGroupTransportDataType", "BrowseDescription", "BrowsePath", "BrowsePathResult", "BrowsePathTarget", "BrowseResult", "BuildInfo", "CartesianCoordinates", "ChannelSecurityToken", "ComplexNumberType", "ConfigurationVersionDataType", "ConnectionTransportDataType", "CurrencyUnitType", "DataChangeFilter", "DataSetReaderMessageDataType", "DataSetReaderTransportDataType", "DataSetWriterMessageDataType", "DataSetWriterTransportDataType", "DataTypeAttributes", "DataTypeDescription", "DataTypeSchemaHeader", "DatagramWriterGroupTransportDataType", "DecimalDataType", "DeleteAtTimeDetails", "DeleteEventDetails", "DeleteNodesItem", "DeleteRawModifiedDetails", "DeleteReferencesItem", "DiscoveryConfiguration", "DoubleComplexNumberType", "EUInformation", "ElementOperand", "EndpointConfiguration", "EndpointDescription", "EndpointType", "EndpointUrlListDataType", "EnumDefinition", "EnumDescription", "EnumField", "EnumValueType", "EphemeralKeyType", "FilterOperand", "Frame", "HistoryReadDetails", "HistoryReadValueId", "HistoryUpdateDetails", "IdentityMappingRuleType", "IssuedIdentityToken", "JsonDataSetReaderMessageDataType", "JsonDataSetWriterMessageDataType", "JsonWriterGroupMessageDataType", "MdnsDiscoveryConfiguration", "MethodAttributes", "ModelChangeStructureDataType", "ModificationInfo", "MonitoringFilter", "MonitoringFilterResult", "NetworkAddressDataType", "NetworkAddressUrlDataType", "NetworkGroupDataType", "NodeAttributes", "NodeReference", "NodeTypeDescription", "NotificationData", "ObjectAttributes", "ObjectTypeAttributes", "OptionSet", "Orientation", "PublishedDataSetSourceDataType", "QueryDataDescription", "Range", "RationalNumber", "ReadAnnotationDataDetails", "ReadAtTimeDetails", "ReadProcessedDetails", "ReadRawModifiedDetails", "ReadValueId", "ReaderGroupMessageDataType", "ReaderGroupTransportDataType", "RedundantServerDataType", "ReferenceDescription", "ReferenceTypeAttributes", "RegisteredServer", "RelativePath", "RelativePathElement", "RolePermissionType", "SamplingIntervalDiagnosticsDataType", "SemanticChangeStructureDataType", "ServerDiagnosticsSummaryDataType", "ServerOnNetwork", "ServerStatusDataType", "ServiceCounterDataType", "SessionDiagnosticsDataType", "SessionSecurityDiagnosticsDataType", "SessionlessInvokeRequestType", "SessionlessInvokeResponseType", "SignatureData", "SignedSoftwareCertificate", "SimpleAttributeOperand", "SimpleTypeDescription", "StructureDefinition", "StructureDescription", "StructureField", "SubscribedDataSetDataType", "SubscribedDataSetMirrorDataType", "SubscriptionAcknowledgement", "SubscriptionDiagnosticsDataType", "ThreeDCartesianCoordinates", "ThreeDFrame", "ThreeDOrientation", "ThreeDVector", "TimeZoneDataType", "TransferResult", "TrustListDataType", "UadpDataSetReaderMessageDataType", "UadpDataSetWriterMessageDataType", "UadpWriterGroupMessageDataType", "Union", "UserIdentityToken", "UserNameIdentityToken", "UserTokenPolicy", "Vector", "ViewAttributes", "ViewDescription", "WriterGroupMessageDataType", "WriterGroupTransportDataType", "X509IdentityToken", "XVType">>
Names == <<"ActivateSessionRequest", "ActivateSessionResponse", "AddNodesItem", "AddNodesRequest", "AddNodesResponse", "AddNodesResult", "AddReferencesItem", "AddReferencesRequest", "AddReferencesResponse", "AdditionalParametersType", "AggregateConfiguration", "AggregateFilter", "AggregateFilterResult", "AliasNameDataType", "Annotation", "AnonymousIdentityToken", "ApplicationDescription", "Argument", "AttributeOperand", "AxisInformation", "BrokerConnectionTransportDataType", "BrokerDataSetReaderTransportDataType", "BrokerDataSetWriterTransportDataType", "BrokerWriterGroupTransportDataType", "BrowseDescription", "BrowseNextRequest", "BrowseNextResponse", "BrowsePath", "BrowsePathResult", "BrowsePathTarget", "BrowseRequest", "BrowseResponse", "BrowseResult", "BuildInfo", "CallMethodRequest", "CallMethodResult", "CallRequest", "CallResponse", "CancelRequest", "CancelResponse", "CartesianCoordinates", "ChannelSecurityToken", "CloseSecureChannelRequest", "CloseSecureChannelResponse", "CloseSessionRequest", "CloseSessionResponse", "ComplexNumberType", "ConfigurationVersionDataType", "ConnectionTransportDataType", "ContentFilter", "ContentFilterElement", "ContentFilterElementResult", "ContentFilterResult", "CreateMonitoredItemsRequest", "CreateMonitoredItemsResponse", "CreateSessionRequest", "CreateSessionResponse", "CreateSubscriptionRequest", "CreateSubscriptionResponse", "CurrencyUnitType", "DataChangeFilter", "DataChangeNotification", "DataSetMetaDataType", "DataSetReaderDataType", "DataSetReaderMessageDataType", "DataSetReaderTransportDataType", "DataSetWriterDataType", "DataSetWriterMessageDataType", "DataSetWriterTransportDataType", "DataTypeAttributes", "DataTypeDescription", "DataTypeSchemaHeader", "DatagramConnectionTransportDataType", "DatagramWriterGroupTransportDataType", "DecimalDataType", "DeleteAtTimeDetails", "DeleteEventDetails", "DeleteMonitoredItemsRequest", "DeleteMonitoredItemsResponse", "DeleteNodesItem", "DeleteNodesRequest", "DeleteNodesResponse", "DeleteRawModifiedDetails", "DeleteReferencesItem", "DeleteReferencesRequest", "DeleteReferencesResponse", "DeleteSubscriptionsRequest", "DeleteSubscriptionsResponse", "DiscoveryConfiguration", "DoubleComplexNumberType", "EUInformation", "ElementOperand", "EndpointConfiguration", "EndpointDescription", "EndpointType", "EndpointUrlListDataType", "EnumDefinition", "EnumDescription", "EnumField", "EnumValueType", "EphemeralKeyType", "EventFieldList", "EventFilter", "EventFilterResult", "EventNotificationList", "FieldMetaData", "FieldTargetDataType", "FilterOperand", "FindServersOnNetworkRequest", "FindServersOnNetworkResponse", "FindServersRequest", "FindServersResponse", "Frame", "GenericAttributeValue", "GenericAttributes", "GetEndpointsRequest", "GetEndpointsResponse", "HistoryData", "HistoryEvent", "HistoryEventFieldList", "HistoryModifiedData", "HistoryReadDetails", "HistoryReadRequest", "HistoryReadResponse", "HistoryReadResult", "HistoryReadValueId", "HistoryUpdateDetails", "HistoryUpdateRequest", "HistoryUpdateResponse", "HistoryUpdateResult", "IdentityMappingRuleType", "IssuedIdentityToken", "JsonDataSetReaderMessageDataType", "JsonDataSetWriterMessageDataType", "JsonWriterGroupMessageDataType", "KeyValuePair", "LiteralOperand", "MdnsDiscoveryConfiguration", "MethodAttributes", "ModelChangeStructureDataType", "ModificationInfo", "ModifyMonitoredItemsRequest", "ModifyMonitoredItemsResponse", "ModifySubscriptionRequest", "ModifySubscriptionResponse", "MonitoredItemCreateRequest", "MonitoredItemCreateResult", "MonitoredItemModifyRequest", "MonitoredItemModifyResult", "MonitoredItemNotification", "MonitoringFilter", "MonitoringFilterResult", "MonitoringParameters", "NetworkAddressDataType", "NetworkAddressUrlDataType", "NetworkGroupDataType", "NodeAttributes", "NodeReference", "NodeTypeDescription", "NotificationData", "NotificationMessage", "ObjectAttributes", "ObjectTypeAttributes", "OpenSecureChannelRequest", "OpenSecureChannelResponse", "OptionSet", "Orientation", "ParsingResult", "ProgramDiagnosticDataType", "PubSubConfigurationDataType", "PubSubConnectionDataType", "PubSubGroupDataType", "PublishRequest", "PublishResponse", "PublishedDataItemsDataType", "PublishedDataSetDataType", "PublishedDataSetSourceDataType", "PublishedEventsDataType", "PublishedVariableDataType", "QueryDataDescription", "QueryDataSet", "QueryFirstRequest", "QueryFirstResponse", "QueryNextRequest", "QueryNextResponse", "Range", "RationalNumber", "ReadAnnotationDataDetails", "ReadAtTimeDetails", "ReadEventDetails", "ReadProcessedDetails", "ReadRawModifiedDetails", "ReadRequest", "ReadResponse", "ReadValueId", "ReaderGroupDataType", "ReaderGroupMessageDataType", "ReaderGroupTransportDataType", "RedundantServerDataType", "ReferenceDescription", "ReferenceTypeAttributes", "RegisterNodesRequest", "RegisterNodesResponse", "RegisterServer2Request", "RegisterServer2Response", "RegisterServerRequest", "RegisterServerResponse", "RegisteredServer", "RelativePath", "RelativePathElement", "RepublishRequest", "RepublishResponse", "RequestHeader", "ResponseHeader", "RolePermissionType", "SamplingIntervalDiagnosticsDataType", "SemanticChangeStructureDataType", "ServerDiagnosticsSummaryDataType", "ServerOnNetwork", "ServerStatusDataType", "ServiceCounterDataType", "ServiceFault", "SessionDiagnosticsDataType", "SessionSecurityDiagnosticsDataType", "SessionlessInvokeRequestType", "SessionlessInvokeResponseType", "SetMonitoringModeRequest", "SetMonitoringModeResponse", "SetPublishingModeRequest", "SetPublishingModeResponse", "SetTriggeringRequest", "SetTriggeringResponse", "SignatureData", "SignedSoftwareCertificate", "SimpleAttributeOperand", "SimpleTypeDescription", "StatusChangeNotification", "StatusResult", "StructureDefinition", "StructureDescription", "StructureField", "SubscribedDataSetDataType", "SubscribedDataSetMirrorDataType", "SubscriptionAcknowledgement", "SubscriptionDiagnosticsDataType", "TargetVariablesDataType", "ThreeDCartesianCoordinates", "ThreeDFrame", "ThreeDOrientation", "ThreeDVector", "TimeZoneDataType", "TransferResult", "TransferSubscriptionsRequest", "TransferSubscriptionsResponse", "TranslateBrowsePathsToNodeIdsRequest", "TranslateBrowsePathsToNodeIdsResponse", "TrustListDataType", "UABinaryFileDataType", "UadpDataSetReaderMessageDataType", "UadpDataSetWriterMessageDataType", "UadpWriterGroupMessageDataType", "Union", "UnregisterNodesRequest", "UnregisterNodesResponse", "UpdateDataDetails", "UpdateEventDetails", "UpdateStructureDataDetails", "UserIdentityToken", "UserNameIdentityToken", "UserTokenPolicy", "VariableAttributes", "VariableTypeAttributes", "Vector", "ViewAttributes", "ViewDescription", "WriteRequest", "WriteResponse", "WriteValue", "WriterGroupDataType", "WriterGroupMessageDataType", "WriterGroupTransportDataType", "X509IdentityToken", "XVType">>
====
