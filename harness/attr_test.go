package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

func init() { kinds["attr"] = runAttr }

type aVal struct {
	T string `json:"t"`
	A bool   `json:"a"`
	D []int  `json:"d"`
}

type aNode struct {
	Type  string
	Rank  int32
	Acc   []string
	Own   bool
	Perms map[string][]string
	Hist  bool
	Min   float64
	St    string
	Val   aVal
}

type aOp struct {
	N    string
	I    int
	Attr string
	R    struct{ S string }
	Enc  string
	Val  aVal
	St   string
}

type aStep struct {
	Op    string
	U     string
	Age   float64
	Ts    int
	Nodes []aNode
	Ops   []aOp
}

type aCase struct {
	Conf struct {
		Perms map[string][]string
		Roles map[string][]string
	}
	Steps []aStep
}

var aChars = []rune("xyzw\u00e9\u65e5")

// aElem is element k of type t.
func aElem(t string, k int) any {
	switch t {
	case "Boolean":
		return k == 1
	case "SByte":
		return []int8{0, 1, -1, math.MinInt8, math.MaxInt8, 42}[k]
	case "Byte":
		return []byte{0, 1, 2, 127, 255, 42}[k]
	case "Int16":
		return []int16{0, 1, -1, math.MinInt16, math.MaxInt16, 42}[k]
	case "UInt16":
		return []uint16{0, 1, 2, 32768, math.MaxUint16, 42}[k]
	case "Int32":
		return []int32{0, 1, -1, math.MinInt32, math.MaxInt32, 42}[k]
	case "UInt32":
		return []uint32{0, 1, 2, 1 << 31, math.MaxUint32, 42}[k]
	case "Int64":
		return []int64{0, 1, -1, math.MinInt64, math.MaxInt64, 42}[k]
	case "UInt64":
		return []uint64{0, 1, 2, 1 << 63, math.MaxUint64, 42}[k]
	case "Float":
		return []float32{0, 1.5, -1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1))}[k]
	case "Double":
		return []float64{0, 1.5, -1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(-1)}[k]
	case "String":
		r := []rune{}
		for ; k > 0; k /= 7 {
			r = append(r, aChars[k%7-1])
		}
		return string(r)
	case "DateTime":
		return []time.Time{time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2020, 2, 29, 1, 2, 3, 123456700, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1900, 5, 6, 7, 8, 9, 100, time.UTC), time.Date(2100, 12, 31, 23, 59, 59, 999999900, time.UTC), time.Date(2262, 1, 1, 0, 0, 0, 0, time.UTC)}[k]
	case "Guid":
		return uuid.MustParse(fmt.Sprintf("0123456%d-89ab-cdef-0123-456789abcde%d", k, k))
	case "ByteString":
		r := []byte{}
		for ; k > 0; k /= 7 {
			r = append(r, aElem("Byte", k%7-1).(byte))
		}
		return ua.ByteString(r)
	case "XmlElement":
		return []ua.XMLElement{"<a/>", "<b/>", "<c>1</c>", "<d e='f'/>", "<g>\u00e9</g>", "<h/>"}[k]
	case "NodeId":
		return []ua.NodeID{ua.NewNodeIDNumeric(0, 85), ua.NewNodeIDNumeric(0, 300), ua.NewNodeIDNumeric(300, 1<<20), ua.NewNodeIDString(2, "s"), ua.NewNodeIDGUID(1, uuid.MustParse("01234567-89ab-cdef-0123-456789abcdef")), ua.NewNodeIDOpaque(3, "opaque")}[k]
	case "ExpandedNodeId":
		return []ua.ExpandedNodeID{{NodeID: ua.NewNodeIDNumeric(0, 85)}, {NodeID: ua.NewNodeIDNumeric(2, 1<<20)}, {ServerIndex: 1, NodeID: ua.NewNodeIDNumeric(0, 85)}, {NamespaceURI: "urn:x", NodeID: ua.NewNodeIDString(0, "s")}, {ServerIndex: 5, NamespaceURI: "urn:y", NodeID: ua.NewNodeIDNumeric(0, 7)}, {NodeID: ua.NewNodeIDOpaque(3, "o")}}[k]
	case "StatusCode":
		return []ua.StatusCode{0, ua.BadNodeIDUnknown, ua.UncertainInitialValue, 0xFFFFFFFF, ua.BadTimeout, 0x00000480}[k]
	case "QualifiedName":
		return []ua.QualifiedName{{}, ua.NewQualifiedName(1, "q"), ua.NewQualifiedName(65535, "r"), ua.NewQualifiedName(0, "s"), ua.NewQualifiedName(2, "q"), ua.NewQualifiedName(1, "\u00e9")}[k]
	case "LocalizedText":
		return []ua.LocalizedText{{}, ua.NewLocalizedText("text", "en"), ua.NewLocalizedText("text", ""), ua.NewLocalizedText("", "de"), ua.NewLocalizedText("Text", "de"), ua.NewLocalizedText("\u00e9", "fr")}[k]
	case "Range":
		return ua.Range{Low: float64(k), High: float64(k) + 1.5}
	}
	panic("type " + t)
}

var aGoTypes = func() map[string]reflect.Type {
	m := map[string]reflect.Type{}
	for _, t := range strings.Fields("Boolean SByte Byte Int16 UInt16 Int32 UInt32 Int64 UInt64 Float Double String DateTime Guid ByteString XmlElement ExpandedNodeId StatusCode QualifiedName LocalizedText") {
		m[t] = reflect.TypeOf(aElem(t, 0))
	}
	m["NodeId"] = reflect.TypeOf((*ua.NodeID)(nil)).Elem()
	m["Range"] = reflect.TypeOf((*ua.ExtensionObject)(nil)).Elem()
	return m
}()

func (v aVal) enc() any {
	switch {
	case v.T == "Nil":
		return nil
	case v.A:
		s := reflect.MakeSlice(reflect.SliceOf(aGoTypes[v.T]), len(v.D), len(v.D))
		for i, k := range v.D {
			s.Index(i).Set(reflect.ValueOf(aElem(v.T, k)))
		}
		return s.Interface()
	case v.T == "String":
		r := []rune{}
		for _, k := range v.D {
			r = append(r, aChars[k])
		}
		return string(r)
	case v.T == "ByteString":
		r := []byte{}
		for _, k := range v.D {
			r = append(r, aElem("Byte", k).(byte))
		}
		return ua.ByteString(r)
	}
	return aElem(v.T, v.D[0])
}

func aIndex(t string, x any) int {
	n := 6
	if t == "Boolean" {
		n = 2
	}
	if t == "String" || t == "ByteString" {
		k := 0
		switch x := x.(type) {
		case string:
			r := []rune(x)
			for i := len(r) - 1; i >= 0; i-- {
				k = 7*k + 1 + slices.Index(aChars, r[i])
			}
		case ua.ByteString:
			for i := len(x) - 1; i >= 0; i-- {
				k = 7*k + 1 + aIndex("Byte", x[i])
			}
		}
		return k
	}
	for k := 0; k < n; k++ {
		if reflect.DeepEqual(aElem(t, k), x) {
			return k
		}
		if a, ok := aElem(t, k).(time.Time); ok {
			if b, ok := x.(time.Time); ok && a.Equal(b) {
				return k
			}
		}
	}
	return -1
}

func aTypeOf(x any) string {
	switch x.(type) {
	case ua.NodeIDNumeric, ua.NodeIDString, ua.NodeIDGUID, ua.NodeIDOpaque:
		return "NodeId"
	case ua.Range:
		return "Range"
	}
	for t, g := range aGoTypes {
		if g == reflect.TypeOf(x) {
			return t
		}
	}
	return fmt.Sprintf("%T", x)
}

func aDec(x any) aVal {
	v := aVal{T: "Nil", D: []int{}}
	if x == nil {
		return v
	}
	switch s := x.(type) {
	case string:
		v.T = "String"
		for _, r := range s {
			v.D = append(v.D, strings.IndexRune(string(aChars), r))
			for k, c := range aChars {
				if c == r {
					v.D[len(v.D)-1] = k
				}
			}
		}
		return v
	case ua.ByteString:
		v.T = "ByteString"
		for _, b := range []byte(s) {
			v.D = append(v.D, aIndex("Byte", b))
		}
		return v
	}
	if r := reflect.ValueOf(x); r.Kind() == reflect.Slice {
		v.A = true
		for t, g := range aGoTypes {
			if g == r.Type().Elem() {
				v.T = t
			}
		}
		for i := 0; i < r.Len(); i++ {
			v.D = append(v.D, aIndex(v.T, r.Index(i).Interface()))
		}
		return v
	}
	v.T = aTypeOf(x)
	v.D = append(v.D, aIndex(v.T, x))
	return v
}

var aDataTypes = map[string]ua.NodeID{"Boolean": ua.DataTypeIDBoolean, "SByte": ua.DataTypeIDSByte, "Byte": ua.DataTypeIDByte, "Int16": ua.DataTypeIDInt16, "UInt16": ua.DataTypeIDUInt16, "Int32": ua.DataTypeIDInt32, "UInt32": ua.DataTypeIDUInt32, "Int64": ua.DataTypeIDInt64, "UInt64": ua.DataTypeIDUInt64,
	"Float": ua.DataTypeIDFloat, "Double": ua.DataTypeIDDouble, "String": ua.DataTypeIDString, "DateTime": ua.DataTypeIDDateTime, "Guid": ua.DataTypeIDGUID, "ByteString": ua.DataTypeIDByteString, "XmlElement": ua.DataTypeIDXMLElement, "NodeId": ua.DataTypeIDNodeID, "ExpandedNodeId": ua.DataTypeIDExpandedNodeID,
	"StatusCode": ua.DataTypeIDStatusCode, "QualifiedName": ua.DataTypeIDQualifiedName, "LocalizedText": ua.DataTypeIDLocalizedText, "Range": ua.DataTypeIDRange, "Structure": ua.DataTypeIDStructure, "Any": ua.DataTypeIDBaseDataType,
	"Duration": ua.DataTypeIDDuration, "UtcTime": ua.DataTypeIDUtcTime, "ServerState": ua.DataTypeIDServerState, "LocaleId": ua.DataTypeIDLocaleID}

var aAttrs = map[string]uint32{"NodeId": 1, "NodeClass": 2, "BrowseName": 3, "DisplayName": 4, "Description": 5, "WriteMask": 6, "IsAbstract": 8, "Symmetric": 9, "InverseName": 10, "ContainsNoLoops": 11, "EventNotifier": 12, "Value": 13,
	"DataType": 14, "ValueRank": 15, "ArrayDimensions": 16, "AccessLevel": 17, "UserAccessLevel": 18, "MinimumSamplingInterval": 19, "Historizing": 20, "Executable": 21, "UserExecutable": 22, "RolePermissions": 24, "UserRolePermissions": 25, "Attr0": 0, "Attr99": 99}

var aPermBits = map[string]ua.PermissionType{"Browse": ua.PermissionTypeBrowse, "Read": ua.PermissionTypeRead, "Write": ua.PermissionTypeWrite, "ReadRoles": ua.PermissionTypeReadRolePermissions, "WriteHist": ua.PermissionTypeWriteHistorizing, "ReadHist": ua.PermissionTypeReadHistory, "Call": ua.PermissionTypeCall}

func aRole(n string) ua.NodeID { return ua.NewNodeIDString(1, n) }

func aPerms(m map[string][]string) []ua.RolePermissionType {
	out := []ua.RolePermissionType{}
	rs := []string{}
	for r := range m {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, r := range rs {
		var p ua.PermissionType
		for _, x := range m[r] {
			p |= aPermBits[x]
		}
		out = append(out, ua.RolePermissionType{RoleID: aRole(r), Permissions: p})
	}
	return out
}

func aSet(xs []string) string {
	sort.Strings(xs)
	return strings.Join(xs, ",")
}

func aAccess(b byte) string {
	xs := []string{}
	for n, v := range map[string]byte{"R": ua.AccessLevelsCurrentRead, "W": ua.AccessLevelsCurrentWrite, "HR": ua.AccessLevelsHistoryRead} {
		if b&v != 0 {
			xs = append(xs, n)
			b &^= v
		}
	}
	if b != 0 {
		xs = append(xs, fmt.Sprint(b))
	}
	return aSet(xs)
}

func aAttrString(attr string, x any) string {
	switch attr {
	case "AccessLevel", "UserAccessLevel":
		b, ok := x.(byte)
		if !ok {
			return fmt.Sprintf("%T", x)
		}
		return aAccess(b)
	case "DataType":
		for n, id := range aDataTypes {
			if id == x {
				return n
			}
		}
	case "NodeClass":
		return map[any]string{int32(2): "Variable"}[x]
	case "NodeId":
		if n, ok := x.(ua.NodeIDString); ok {
			return n.ID
		}
	case "BrowseName":
		return x.(ua.QualifiedName).Name
	case "DisplayName":
		return x.(ua.LocalizedText).Text
	case "Historizing":
		return strings.ToUpper(fmt.Sprint(x))
	case "RolePermissions", "UserRolePermissions":
		xs := []string{}
		l, ok := x.([]ua.ExtensionObject)
		if !ok && x != nil {
			return fmt.Sprintf("%T", x)
		}
		for _, e := range l {
			p := e.(ua.RolePermissionType)
			ps := []string{}
			rest := p.Permissions
			for n, b := range aPermBits {
				if p.Permissions&b != 0 {
					ps = append(ps, n)
					rest &^= b
				}
			}
			if rest != 0 {
				ps = append(ps, fmt.Sprint(rest))
			}
			xs = append(xs, p.RoleID.(ua.NodeIDString).ID+":"+aSet(ps))
		}
		sort.Strings(xs)
		return strings.Join(xs, ";")
	}
	return fmt.Sprint(x)
}

// userSession activates a session for the given password token.
func (e *env) userSession(tok string) *sess {
	p := e.connect()
	r := p.call(&ua.CreateSessionRequest{RequestHeader: hdr(nil, 0, 0), EndpointURL: endpointURL, SessionName: "s", ClientNonce: ua.ByteString(nonce(32)), RequestedSessionTimeout: 3600000}).(*ua.CreateSessionResponse)
	cert, _ := loadPair("server")
	a := p.call(activation(sessStep{Tok: tok, Sig: "ok"}, 0, p, &mSess{r.AuthenticationToken, r.SessionID, []ua.ByteString{r.ServerNonce}, r.ServerEndpoints, ""}, r.AuthenticationToken, cert))
	if x, ok := a.(*ua.ActivateSessionResponse); !ok || x.ServiceResult != ua.Good {
		panic(fmt.Sprintf("setup: activate %s: %+v", tok, a))
	}
	return &sess{p: p, token: r.AuthenticationToken, id: r.SessionID}
}

func runAttr(rec *recorder, raw json.RawMessage) {
	var c aCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	caps := ua.NewServerCapabilities()
	caps.MaxArrayLength, caps.MaxStringLength, caps.MaxByteStringLength = 5, 5, 5
	caps.OperationLimits.MaxNodesPerRead, caps.OperationLimits.MaxNodesPerWrite = 8, 8
	e := newEnv(rec, server.WithAnonymousIdentity(true), server.WithServerCapabilities(caps), server.WithRolePermissions(aPerms(c.Conf.Perms)),
		server.WithAuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, app, url string) error { return nil }),
		server.WithGetRolesFunc(func(id any, app, url string) ([]ua.NodeID, error) {
			u := "u1"
			if userName(id) == "alice" {
				u = "u2"
			}
			rs := []ua.NodeID{}
			for _, r := range c.Conf.Roles[u] {
				rs = append(rs, aRole(r))
			}
			return rs, nil
		}))
	vars := []*server.VariableNode{}
	for i, n := range c.Steps[0].Nodes {
		var acc byte
		for _, a := range n.Acc {
			acc |= map[string]byte{"R": ua.AccessLevelsCurrentRead, "W": ua.AccessLevelsCurrentWrite, "HR": ua.AccessLevelsHistoryRead}[a]
		}
		var perms []ua.RolePermissionType
		if n.Own {
			perms = aPerms(n.Perms)
		}
		v := e.variable(fmt.Sprintf("v%d", i+1), ua.NewDataValue(n.Val.enc(), statusByName(n.St), time.Now(), 0, time.Now(), 0), aDataTypes[n.Type], n.Rank, acc, n.Min, perms)
		v.SetHistorizing(n.Hist)
		vars = append(vars, v)
	}
	e.serve()
	us := map[string]*sess{"u1": e.userSession("anon"), "u2": e.userSession("pwAlice")}
	std := map[string]ua.NodeID{"Object": ua.ObjectIDObjectsFolder, "Method": ua.MethodIDServerGetMonitoredItems, "ObjectType": ua.ObjectTypeIDBaseObjectType, "ReferenceType": ua.ReferenceTypeIDHasComponent, "DataType": ua.DataTypeIDNumber, "VariableType": ua.VariableTypeIDBaseVariableType, "none": ua.NewNodeIDString(e.ns, "nosuch")}
	node := func(o aOp) ua.NodeID {
		if o.N == "v" {
			return ua.NewNodeIDString(e.ns, fmt.Sprintf("v%d", o.I))
		}
		return std[o.N]
	}
	stamps := make([]time.Time, len(vars))
	for i := range stamps {
		stamps[i] = vars[i].Value().SourceTimestamp
	}
	for i, st := range c.Steps {
		e.until(int64(i * 10))
		ev := obj{"i": i}
		res := []obj{}
		notes := []string{}
		switch st.Op {
		case "read":
			s := us[st.U]
			m := &ua.ReadRequest{RequestHeader: hdr(s.token, uint32(i), 0), MaxAge: st.Age, TimestampsToReturn: ua.TimestampsToReturn(st.Ts)}
			for _, o := range st.Ops {
				m.NodesToRead = append(m.NodesToRead, ua.ReadValueID{NodeID: node(o), AttributeID: aAttrs[o.Attr], IndexRange: o.R.S, DataEncoding: ua.NewQualifiedName(0, o.Enc)})
			}
			ans, other := s.p.ask(m)
			ev["res"] = rxResult(ans)
			notes = append(notes, other...)
			if r, ok := ans.(*ua.ReadResponse); ok {
				for j, dv := range r.Results {
					x := obj{"st": code(dv.StatusCode)}
					if j < len(st.Ops) {
						o := st.Ops[j]
						if o.Attr == "Value" && o.N == "v" && !dv.StatusCode.IsBad() || o.Attr == "Value" && dv.Value != nil {
							x["val"] = aDec(dv.Value)
						} else if dv.StatusCode == ua.Good {
							if o.N == "v" {
								x["x"] = aAttrString(o.Attr, dv.Value)
							}
						} else if dv.Value != nil {
							notes = append(notes, fmt.Sprintf("result %d: %s with a value", j, code(dv.StatusCode)))
						}
						// timestamps
						src, sv := !dv.SourceTimestamp.IsZero(), !dv.ServerTimestamp.IsZero()
						if src && (st.Ts == 1 || st.Ts == 3) {
							notes = append(notes, fmt.Sprintf("result %d: source timestamp not asked for", j))
						}
						if sv && (st.Ts == 0 || st.Ts == 3) {
							notes = append(notes, fmt.Sprintf("result %d: server timestamp not asked for", j))
						}
						if o.Attr == "Value" && o.N == "v" && dv.StatusCode == ua.Good {
							if (st.Ts == 0 || st.Ts == 2) && !dv.SourceTimestamp.Equal(stamps[o.I-1].Truncate(100)) {
								notes = append(notes, fmt.Sprintf("result %d: source timestamp %v, want %v", j, dv.SourceTimestamp, stamps[o.I-1]))
							}
							if (st.Ts == 1 || st.Ts == 2) && !sv {
								notes = append(notes, fmt.Sprintf("result %d: no server timestamp", j))
							}
						}
					}
					res = append(res, x)
				}
			}
		case "write":
			s := us[st.U]
			m := &ua.WriteRequest{RequestHeader: hdr(s.token, uint32(i), 0)}
			for _, o := range st.Ops {
				m.NodesToWrite = append(m.NodesToWrite, ua.WriteValue{NodeID: node(o), AttributeID: aAttrs[o.Attr], IndexRange: o.R.S, Value: ua.NewDataValue(o.Val.enc(), statusByName(o.St), time.Time{}, 0, time.Time{}, 0)})
			}
			ans, other := s.p.ask(m)
			ev["res"] = rxResult(ans)
			notes = append(notes, other...)
			if r, ok := ans.(*ua.WriteResponse); ok {
				for j, x := range r.Results {
					res = append(res, obj{"st": code(x)})
					if j < len(st.Ops) && x == ua.Good && st.Ops[j].N == "v" && st.Ops[j].Attr == "Value" {
						stamps[st.Ops[j].I-1] = time.Now()
					}
				}
			}
		default:
			ev["res"] = "Good"
			if st.Op == "final" {
				for _, v := range vars {
					res = append(res, obj{"st": code(v.Value().StatusCode), "val": aDec(v.Value().Value), "hist": v.Historizing()})
				}
			}
		}
		ev["results"] = res
		if len(notes) > 0 {
			ev["notes"] = notes
		}
		rec.emit(ev)
	}
}
