package harness

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

func init() { kinds["nodeset"] = runNodeset }

type nsKey struct {
	Uri, K string
	Id     uint32
}
type nsText struct{ Uri, V, Locale string }
type nsItem struct {
	T, V, Locale, Uri string
	Key               nsKey
}
type nsNode struct {
	Key                                                                                                nsKey
	Cls                                                                                                string
	Browse, Display, Descr                                                                             nsText
	Abstract, Symmetric, Inverse, Notifier, Noloops, Rank, Access, Sampling, Historizing, Executable string
	Dims                                                                                               []int
	Lex                                                                                                int
	Value                                                                                              struct {
		T                 string
		Arr, Odd, Variant bool
		Items             []nsItem
		Dt                nsKey
	}
	Refs []struct {
		Type, Target nsKey
		Fwd          bool
	}
}
type nsStep struct {
	Op         string
	Uris       []string
	Alias      int
	Style, Cut int
	New        []nsNode
	Want       struct {
		Nodes []struct {
			Key nsKey
			Cls string
		}
		Std []struct{ Key nsKey }
	}
}

var nsURIs = map[string]string{"ua": "http://opcfoundation.org/UA/", "app": "urn:verif:server", "env": nsURI, "x": "urn:x", "y": "http://y/&more", "z": "urn:z"}
var nsTexts = map[string]string{"": "", "plain": "Plain", "amp": "A&B <c> \"d\"", "spaces": " two  words ", "unicode": "Grüße ☃", "colon": "a:b/c"}

func nsName(s string, m map[string]string) string {
	for k, v := range m {
		if v == s {
			return k
		}
	}
	return "?" + s
}

func esc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// nsID is the node id of a key, with the index ns.
func nsID(k nsKey, ns uint16) ua.NodeID {
	if k.Uri == "" {
		return nil
	}
	switch k.K {
	case "i":
		return ua.NewNodeIDNumeric(ns, k.Id)
	case "s":
		return ua.NewNodeIDString(ns, fmt.Sprintf([]string{"N%d", "A&B<%d>", "x;y=%d", "ns=2;i=%d", "ü %d"}[k.Id%5], k.Id))
	case "g":
		return ua.NewNodeIDGUID(ns, uuid.MustParse(fmt.Sprintf("5ce9dbce-5d79-434c-9ac3-%012d", k.Id)))
	}
	return ua.NewNodeIDOpaque(ns, ua.ByteString([]byte{0xff, 0, byte(k.Id - 100000)}))
}

func nsKeyOf(id ua.NodeID, table []string) obj {
	var ns uint16
	o := obj{"k": "", "id": 0, "uri": ""}
	switch n := id.(type) {
	case ua.NodeIDNumeric:
		ns, o["k"], o["id"] = n.NamespaceIndex, "i", n.ID
	case ua.NodeIDString:
		ns, o["k"] = n.NamespaceIndex, "s"
		i := uint32(0)
		for i = 100000; i < 100100; i++ {
			if nsID(nsKey{"x", "s", i}, 0).(ua.NodeIDString).ID == n.ID {
				break
			}
		}
		o["id"] = i
	case ua.NodeIDGUID:
		i := uint32(0)
		fmt.Sscanf(n.ID.String()[24:], "%d", &i)
		ns, o["k"], o["id"] = n.NamespaceIndex, "g", i
	case ua.NodeIDOpaque:
		ns, o["k"] = n.NamespaceIndex, "b"
		if len(n.ID) == 3 && n.ID[0] == 0xff && n.ID[1] == 0 {
			o["id"] = 100000 + int(n.ID[2])
		}
	default:
		return o
	}
	o["uri"] = fmt.Sprintf("?%d", ns)
	if int(ns) < len(table) {
		o["uri"] = nsName(table[ns], nsURIs)
	}
	return o
}

// nsDoc writes the document.
func nsDoc(st nsStep) string {
	var b strings.Builder
	idx := map[string]uint16{"ua": 0}
	for i, u := range st.Uris {
		if _, ok := idx[u]; !ok || st.Style&1 == 1 {
			idx[u] = uint16(i + 1)
		}
	}
	used := map[string]string{}
	sid := func(k nsKey, lex int) string {
		if k.Uri == "" {
			return ""
		}
		id := nsID(k, idx[k.Uri])
		s := id.(fmt.Stringer).String()
		if idx[k.Uri] == 0 && lex&1 == 1 {
			s = "ns=0;" + s
		}
		return s
	}
	aid := func(k nsKey, lex int) string {
		s := sid(k, lex)
		if s != "" && st.Alias == 1 && lex&2 == 2 {
			a := map[uint32]string{35: "Organizes", 47: "HasComponent", 46: "HasProperty", 6: "Int32", 12: "String", 24: "BaseDataType", 40: "HasTypeDefinition"}[k.Id]
			if a == "" || k.K != "i" || k.Uri != "ua" {
				a = fmt.Sprintf("My%s%s%d", k.Uri, k.K, k.Id)
			}
			used[a] = s
			return a
		}
		return s
	}
	boolean := func(s string, lex int) string {
		if lex&4 == 4 {
			return map[string]string{"true": "1", "false": "0"}[s]
		}
		return s
	}
	attr := func(n, v string) {
		if v != "" {
			fmt.Fprintf(&b, ` %s="%s"`, n, esc(v))
		}
	}
	pre, post := "", ` xmlns="http://opcfoundation.org/UA/2008/02/Types.xsd"`
	if st.Style&2 == 2 {
		pre, post = "uax:", ""
	}
	el := func(name, body string) string { return "<" + pre + name + ">" + body + "</" + pre + name + ">" }
	loc := func(text, locale string) string {
		s := ""
		if locale != "" {
			s = el("Locale", esc(locale))
		}
		return s + el("Text", esc(text))
	}
	var body func(it nsItem, lex int) string
	body = func(it nsItem, lex int) string {
		switch it.T {
		case "Boolean":
			return boolean(it.V, lex)
		case "Float", "Double":
			return map[string]string{"+Inf": "INF", "-Inf": "-INF"}[it.V] + map[bool]string{true: it.V}[!strings.HasSuffix(it.V, "Inf")]
		case "String":
			return esc(nsTexts[it.V])
		case "Guid":
			return el("String", it.V)
		case "ByteString":
			x, _ := hex.DecodeString(it.V)
			return base64.StdEncoding.EncodeToString(x)
		case "LocalizedText":
			return loc(nsTexts[it.V], it.Locale)
		case "QualifiedName":
			return el("NamespaceIndex", fmt.Sprint(idx[it.Uri])) + el("Name", esc(nsTexts[it.V]))
		case "NodeId":
			return el("Identifier", esc(sid(it.Key, lex)))
		case "ExpandedNodeId":
			if lex&8 == 8 {
				return el("Identifier", esc("nsu="+nsURIs[it.Key.Uri]+";"+nsID(it.Key, 0).(fmt.Stringer).String()))
			}
			return el("Identifier", esc(sid(it.Key, lex)))
		case "Range":
			return el("Low", "-1.5") + el("High", "100")
		case "EUInformation":
			return el("NamespaceUri", esc(it.Uri)) + el("UnitId", "4711") + el("DisplayName", loc(nsTexts[it.V], it.Locale)) + el("Description", loc("Plain", it.Locale))
		case "Argument":
			rank, dims := "-1", ""
			if it.V == "amp" {
				rank, dims = "1", "3"
			}
			return el("Name", esc(nsTexts[it.V])) + el("DataType", el("Identifier", esc(sid(it.Key, lex)))) + el("ValueRank", rank) + el("ArrayDimensions", dims) + el("Description", loc(nsTexts[it.V], it.Locale))
		case "EnumValueType":
			return el("Value", "-5") + el("DisplayName", loc(nsTexts[it.V], it.Locale)) + el("Description", loc("Plain", it.Locale))
		}
		return it.V
	}
	value := func(n nsNode) string {
		v := n.Value
		if v.T == "" {
			return ""
		}
		top := func(name, s string) string {
			return "<Value><" + pre + name + post + ">" + s + "</" + pre + name + "></Value>"
		}
		strct := v.T == "Range" || v.T == "EUInformation" || v.T == "Argument" || v.T == "EnumValueType"
		items := []string{}
		for i, it := range v.Items {
			s := body(it, n.Lex)
			if strct {
				inner := el(v.T, s)
				if v.Odd && i == 0 {
					inner = []string{"", el("Other", "")}[n.Lex&1]
				}
				s = el("TypeId", el("Identifier", "i="+map[string]string{"Range": "885", "EUInformation": "888", "Argument": "297", "EnumValueType": "7616"}[v.T])) + el("Body", inner)
			}
			items = append(items, s)
		}
		name := v.T
		if strct {
			name = "ExtensionObject"
		}
		if !v.Arr {
			return top(name, items[0])
		}
		s := ""
		for _, it := range items {
			if v.Variant {
				s += el("Variant", el("Value", el(name, it)))
			} else {
				s += el(name, it)
			}
		}
		if v.Variant {
			return top("ListOfVariant", s)
		}
		return top("ListOf"+name, s)
	}
	for _, n := range st.New {
		fmt.Fprintf(&b, "<UA%s", n.Cls)
		attr("NodeId", sid(n.Key, n.Lex>>1))
		name := nsTexts[n.Browse.V]
		if i := idx[n.Browse.Uri]; i != 0 || n.Lex&16 == 16 {
			name = fmt.Sprintf("%d:%s", i, name)
		}
		attr("BrowseName", name)
		typ, va := strings.HasSuffix(n.Cls, "Type"), n.Cls == "Variable" || n.Cls == "VariableType"
		if typ {
			attr("IsAbstract", boolean(n.Abstract, n.Lex))
		}
		switch n.Cls {
		case "ReferenceType":
			attr("Symmetric", boolean(n.Symmetric, n.Lex))
		case "Object", "View":
			attr("EventNotifier", n.Notifier)
			if n.Cls == "View" {
				attr("ContainsNoLoops", boolean(n.Noloops, n.Lex))
			}
		case "Method":
			attr("Executable", boolean(n.Executable, n.Lex))
		}
		if va {
			attr("DataType", aid(n.Value.Dt, n.Lex))
			attr("ValueRank", n.Rank)
			ds := []string{}
			for _, d := range n.Dims {
				ds = append(ds, fmt.Sprint(d))
			}
			attr("ArrayDimensions", strings.Join(ds, ","))
		}
		if n.Cls == "Variable" {
			attr("AccessLevel", n.Access)
			attr("MinimumSamplingInterval", n.Sampling)
			attr("Historizing", boolean(n.Historizing, n.Lex))
		}
		b.WriteString(">")
		text := func(tag string, t nsText) {
			if t.V == "" {
				return
			}
			b.WriteString("<" + tag)
			attr("Locale", t.Locale)
			b.WriteString(">" + esc(nsTexts[t.V]) + "</" + tag + ">")
		}
		text("DisplayName", n.Display)
		text("Description", n.Descr)
		if len(n.Refs) > 0 {
			b.WriteString("<References>\n")
			for i, r := range n.Refs {
				b.WriteString("<Reference")
				attr("ReferenceType", aid(r.Type, n.Lex^i))
				if !r.Fwd {
					attr("IsForward", boolean("false", n.Lex))
				} else if n.Lex&32 == 32 {
					attr("IsForward", boolean("true", n.Lex))
				}
				b.WriteString(">" + esc(aid(r.Target, n.Lex>>2^i)) + "</Reference>\n")
			}
			b.WriteString("</References>")
		}
		if n.Cls == "ReferenceType" {
			text("InverseName", nsText{V: n.Inverse})
		}
		if va {
			b.WriteString(value(n))
		}
		fmt.Fprintf(&b, "</UA%s>\n", n.Cls)
	}
	nodes := b.String()
	b.Reset()
	b.WriteString(`<?xml version="1.0" encoding="utf-8"?>` + "\n" + `<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd" LastModified="2020-01-01T00:00:00Z">` + "\n<NamespaceUris>")
	for _, u := range st.Uris {
		b.WriteString("<Uri>" + esc(nsURIs[u]) + "</Uri>")
	}
	b.WriteString("</NamespaceUris>\n<Models><Model ModelUri=\"urn:x\"><RequiredModel ModelUri=\"http://opcfoundation.org/UA/\"/></Model></Models>\n<Aliases>")
	as := []string{}
	for a := range used {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		fmt.Fprintf(&b, `<Alias Alias="%s">%s</Alias>`, esc(a), esc(used[a]))
	}
	b.WriteString("</Aliases>\n")
	if st.Style&4 == 4 {
		b.WriteString("<Extensions><Extension><Tool xmlns=\"urn:tool\"/></Extension></Extensions>")
	}
	b.WriteString(nodes + "</UANodeSet>")
	return b.String()
}

// nsCanon is a value as the specification writes it.
func nsCanon(v any, table []string) any {
	lt := func(t ua.LocalizedText) obj { return obj{"v": strings.TrimSpace(t.Text), "locale": t.Locale} }
	switch x := v.(type) {
	case nil:
		return nil
	case bool, int8, uint8, int16, uint16, int32, uint32, int64, uint64, float32, float64:
		return obj{"t": fmt.Sprintf("%T", x), "v": fmt.Sprint(x)}
	case string:
		return obj{"t": "String", "v": nsName(x, nsTexts)}
	case time.Time:
		return obj{"t": "DateTime", "v": x.UTC().Format(time.RFC3339Nano)}
	case uuid.UUID:
		return obj{"t": "Guid", "v": x.String()}
	case ua.ByteString:
		return obj{"t": "ByteString", "v": hex.EncodeToString([]byte(x))}
	case ua.XMLElement:
		return obj{"t": "XmlElement", "v": string(x)}
	case ua.LocalizedText:
		o := lt(x)
		o["t"] = "LocalizedText"
		return o
	case ua.QualifiedName:
		u := fmt.Sprintf("?%d", x.NamespaceIndex)
		if int(x.NamespaceIndex) < len(table) {
			u = nsName(table[x.NamespaceIndex], nsURIs)
		}
		return obj{"t": "QualifiedName", "v": strings.TrimSpace(x.Name), "uri": u}
	case ua.NodeID:
		return obj{"t": "NodeId", "key": nsKeyOf(x, table)}
	case ua.ExpandedNodeID:
		return obj{"t": "ExpandedNodeId", "key": nsKeyOf(ua.ToNodeID(x, table), table), "svr": x.ServerIndex}
	case ua.Range:
		return obj{"t": "Range", "v": fmt.Sprint(x.Low, x.High)}
	case ua.EUInformation:
		return obj{"t": "EUInformation", "uri": x.NamespaceURI, "unit": x.UnitID, "display": lt(x.DisplayName), "descr": lt(x.Description)}
	case ua.Argument:
		return obj{"t": "Argument", "name": strings.TrimSpace(x.Name), "key": nsKeyOf(x.DataType, table), "rank": x.ValueRank, "dims": fmt.Sprint(x.ArrayDimensions), "descr": lt(x.Description)}
	case ua.EnumValueType:
		return obj{"t": "EnumValueType", "v": x.Value, "display": lt(x.DisplayName), "descr": lt(x.Description)}
	case []byte:
		return nsList(x, table)
	case []bool:
		return nsList(x, table)
	case []int8:
		return nsList(x, table)
	case []int16:
		return nsList(x, table)
	case []uint16:
		return nsList(x, table)
	case []int32:
		return nsList(x, table)
	case []uint32:
		return nsList(x, table)
	case []int64:
		return nsList(x, table)
	case []uint64:
		return nsList(x, table)
	case []float32:
		return nsList(x, table)
	case []float64:
		return nsList(x, table)
	case []string:
		return nsList(x, table)
	case []time.Time:
		return nsList(x, table)
	case []uuid.UUID:
		return nsList(x, table)
	case []ua.ByteString:
		return nsList(x, table)
	case []ua.XMLElement:
		return nsList(x, table)
	case []ua.LocalizedText:
		return nsList(x, table)
	case []ua.QualifiedName:
		return nsList(x, table)
	case []ua.NodeID:
		return nsList(x, table)
	case []ua.ExpandedNodeID:
		return nsList(x, table)
	case []ua.ExtensionObject:
		return nsList(x, table)
	case []ua.Variant:
		return nsList(x, table)
	}
	return obj{"t": fmt.Sprintf("?%T", v)}
}

func nsList[T any](l []T, table []string) any {
	out := []any{}
	for _, x := range l {
		out = append(out, nsCanon(x, table))
	}
	return out
}

func runNodeset(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []nsStep }
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	e := newEnv(rec, server.WithAnonymousIdentity(true))
	e.serve()
	s := e.session(1)
	h := uint32(0)
	req := func() ua.RequestHeader { h++; return hdr(s.token, h, 0) }
	for i, st := range c.Steps {
		ev := obj{"i": i, "op": st.Op}
		doc := ""
		if st.Op == "load" {
			doc = nsDoc(st)
		} else {
			doc = nsDoc(nsStep{Uris: st.Uris, New: c.Steps[0].New})
			// within the part that follows the declaration
			doc = doc[:len(doc)*st.Cut/100]
		}
		err := e.srv.NamespaceManager().LoadNodeSetFromBuffer([]byte(doc))
		ev["err"] = err != nil
		if st.Op == "load" {
			ev["doc"] = doc
		}
		if err != nil {
			ev["msg"] = err.Error()
		}
		r := s.p.call(&ua.ReadRequest{RequestHeader: req(), NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerNamespaceArray, AttributeID: ua.AttributeIDValue}}}).(*ua.ReadResponse)
		table, _ := r.Results[0].Value.([]string)
		names := []string{}
		for _, u := range table {
			names = append(names, nsName(u, nsURIs))
		}
		ev["table"] = names
		idOf := func(k nsKey) ua.NodeID {
			for j, u := range table {
				if u == nsURIs[k.Uri] {
					return nsID(k, uint16(j))
				}
			}
			return ua.NewNodeIDString(999, "none")
		}
		browse := func(id ua.NodeID, own bool) []any {
			out := []any{}
			x, ok := s.p.call(&ua.BrowseRequest{RequestHeader: req(), NodesToBrowse: []ua.BrowseDescription{{NodeID: id, BrowseDirection: ua.BrowseDirectionBoth, ResultMask: 63}}}).(*ua.BrowseResponse)
			if !ok || len(x.Results) != 1 {
				return append(out, "no result")
			}
			if x.Results[0].StatusCode != ua.Good {
				out = append(out, code(x.Results[0].StatusCode))
			}
			for _, ref := range x.Results[0].References {
				k := nsKeyOf(ua.ToNodeID(ref.NodeID, table), table)
				if own || k["k"] != "i" || k["uri"] != "ua" || k["id"].(uint32) >= 100000 {
					out = append(out, obj{"type": nsKeyOf(ref.ReferenceTypeID, table), "fwd": ref.IsForward, "target": k})
				}
			}
			return out
		}
		nodes := []any{}
		for _, n := range st.Want.Nodes {
			id := idOf(n.Key)
			o := obj{}
			attrs := map[string]uint32{"cls": ua.AttributeIDNodeClass, "id": ua.AttributeIDNodeID, "browse": ua.AttributeIDBrowseName, "display": ua.AttributeIDDisplayName, "descr": ua.AttributeIDDescription, "abstract": ua.AttributeIDIsAbstract,
				"symmetric": ua.AttributeIDSymmetric, "inverse": ua.AttributeIDInverseName, "notifier": ua.AttributeIDEventNotifier, "noloops": ua.AttributeIDContainsNoLoops, "dt": ua.AttributeIDDataType,
				"rank": ua.AttributeIDValueRank, "dims": ua.AttributeIDArrayDimensions, "access": ua.AttributeIDAccessLevel, "sampling": ua.AttributeIDMinimumSamplingInterval, "historizing": ua.AttributeIDHistorizing,
				"executable": ua.AttributeIDExecutable, "value": ua.AttributeIDValue}
			rq := &ua.ReadRequest{RequestHeader: req()}
			an := []string{}
			for a := range attrs {
				an = append(an, a)
			}
			sort.Strings(an)
			for _, a := range an {
				rq.NodesToRead = append(rq.NodesToRead, ua.ReadValueID{NodeID: id, AttributeID: attrs[a]})
			}
			x, ok := s.p.call(rq).(*ua.ReadResponse)
			if ok && len(x.Results) == len(an) {
				for j, a := range an {
					d := x.Results[j]
					if d.StatusCode == ua.BadAttributeIDInvalid {
						continue
					}
					if d.StatusCode != ua.Good {
						o[a] = code(d.StatusCode)
						continue
					}
					switch v := d.Value.(type) {
					case ua.LocalizedText:
						if a != "value" {
							o[a] = obj{"v": nsName(v.Text, nsTexts), "locale": v.Locale}
							continue
						}
					case ua.QualifiedName:
						if a != "value" {
							q := nsCanon(v, table).(obj)
							o[a] = obj{"v": nsName(v.Name, nsTexts), "uri": q["uri"]}
							continue
						}
					case ua.NodeID:
						if a != "value" {
							o[a] = nsKeyOf(v, table)
							continue
						}
					}
					switch a {
					case "value":
						o[a] = nsCanon(d.Value, table)
					case "dims":
						o[a] = d.Value
					default:
						o[a] = strings.ToLower(fmt.Sprint(d.Value))
					}
				}
			}
			// the service does not offer the value of a type
			if f, _ := e.srv.NamespaceManager().FindNode(id); f != nil {
				if vt, ok := f.(*server.VariableTypeNode); ok {
					o["value"] = nsCanon(vt.Value().Value, table)
				}
			}
			o["refs"] = browse(id, true)
			nodes = append(nodes, o)
		}
		ev["nodes"] = nodes
		std := []any{}
		for _, k := range st.Want.Std {
			std = append(std, browse(idOf(k.Key), false))
		}
		ev["std"] = std
		rec.emit(ev)
	}
	s.p.close()
	e.srv.Close()
}
