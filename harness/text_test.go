package harness

import (
	"encoding"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
)

func init() { kinds["text"] = runText }

type tID struct {
	K  string
	NS uint16
	V  string
}
type tX struct {
	Svr uint32
	URI string
	ID  tID
}
type tStep struct {
	Op, Text, Name string
	ID             tID
	X              tX
	Also, Table    []string
	NS             uint16
	Path           []struct {
		NS   uint16
		Name string
	}
	Hi, Lo uint32
	Want   json.RawMessage
}

func (t tID) node() ua.NodeID {
	switch t.K {
	case "i":
		n, err := strconv.ParseUint(t.V, 10, 32)
		if err != nil {
			panic(err)
		}
		return ua.NewNodeIDNumeric(t.NS, uint32(n))
	case "s":
		return ua.NewNodeIDString(t.NS, t.V)
	case "g":
		return ua.NewNodeIDGUID(t.NS, uuid.MustParse(t.V))
	}
	b, err := hex.DecodeString(t.V)
	if err != nil {
		panic(err)
	}
	return ua.NewNodeIDOpaque(t.NS, ua.ByteString(b))
}
func (t tX) node() ua.ExpandedNodeID {
	return ua.ExpandedNodeID{ServerIndex: t.Svr, NamespaceURI: t.URI, NodeID: t.ID.node()}
}

func runText(rec *recorder, raw json.RawMessage) {
	var c struct{ Steps []tStep }
	if err := json.Unmarshal([]byte(strings.ReplaceAll(string(raw), "~u", "é")), &c); err != nil {
		panic(err)
	}
	for _, st := range c.Steps {
		notes := []string{}
		is := func(what string, got, want any) {
			if !reflect.DeepEqual(got, want) {
				notes = append(notes, fmt.Sprintf("%s: %#v, want %#v", what, got, want))
			}
		}
		want := func(v any) {
			if err := json.Unmarshal(st.Want, v); err != nil {
				panic(err)
			}
		}
		marshaled := func(v any) {
			if m, ok := v.(encoding.TextMarshaler); ok {
				b, err := m.MarshalText()
				is(fmt.Sprintf("marshaled %#v", v), fmt.Sprint(string(b), err), st.Text+"<nil>")
			}
		}
		switch st.Op {
		case "id":
			n := st.ID.node()
			is(fmt.Sprintf("text of %#v", n), fmt.Sprint(n), st.Text)
			marshaled(n)
			for _, t := range append(st.Also, st.Text) {
				is(fmt.Sprintf("ParseNodeID(%q)", t), ua.ParseNodeID(t), n)
			}
		case "noid":
			is(fmt.Sprintf("ParseNodeID(%q)", st.Text), ua.ParseNodeID(st.Text), ua.NodeID(nil))
		case "x":
			n := st.X.node()
			is(fmt.Sprintf("text of %#v", n), n.String(), st.Text)
			marshaled(n)
			for _, t := range append(st.Also, st.Text) {
				is(fmt.Sprintf("ParseExpandedNodeID(%q)", t), ua.ParseExpandedNodeID(t), n)
			}
		case "nox":
			is(fmt.Sprintf("id of ParseExpandedNodeID(%q)", st.Text), ua.ParseExpandedNodeID(st.Text).NodeID, ua.NodeID(nil))
		case "local":
			var w []tID
			want(&w)
			x := ua.NodeID(nil)
			if len(w) > 0 {
				x = w[0].node()
			}
			is(fmt.Sprintf("ToNodeID(%v, %q)", st.X, st.Table), ua.ToNodeID(st.X.node(), st.Table), x)
		case "expanded":
			var w tX
			want(&w)
			is(fmt.Sprintf("ToExpandedNodeID(%v, %q)", st.ID, st.Table), ua.ToExpandedNodeID(st.ID.node(), st.Table), w.node())
		case "name":
			q := ua.NewQualifiedName(st.NS, st.Name)
			is(fmt.Sprintf("text of %#v", q), q.String(), st.Text)
			marshaled(q)
			is(fmt.Sprintf("ParseQualifiedName(%q)", st.Text), ua.ParseQualifiedName(st.Text), q)
		case "plain":
			is(fmt.Sprintf("ParseQualifiedName(%q)", st.Text), ua.ParseQualifiedName(st.Text), ua.QualifiedName{Name: st.Text})
		case "path":
			p := []ua.QualifiedName{}
			for _, q := range st.Path {
				p = append(p, ua.NewQualifiedName(q.NS, q.Name))
			}
			is(fmt.Sprintf("ParseBrowsePath(%q)", st.Text), ua.ParseBrowsePath(st.Text), p)
		case "status":
			var w struct {
				Sev                            string
				Structure, Semantics, Overflow bool
			}
			want(&w)
			s := ua.StatusCode(st.Hi<<16 | st.Lo)
			is(fmt.Sprintf("flags of %#x", uint32(s)), []bool{s.IsGood(), s.IsUncertain(), s.IsBad(), s.IsStructureChanged(), s.IsSemanticsChanged(), s.IsOverflow()},
				[]bool{w.Sev == "good", w.Sev == "uncertain", w.Sev == "bad", w.Structure, w.Semantics, w.Overflow})
		}
		rec.emit(obj{"notes": notes})
	}
}
