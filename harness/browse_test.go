package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

func init() { kinds["browse"] = runBrowse }

type bRef struct {
	Rt  string
	Inv bool
	To  int
}
type bNode struct {
	Class, Name, Ns string
	Own             bool
	Perms           map[string][]string
	Type            int
}
type bStep struct {
	Op    string
	Nodes []struct {
		N    int
		D    bNode
		Refs []bRef
	}
	K    string
	Ns   []int
	U    string
	Max  uint32
	View string
	Ops  []struct {
		Node int
		Dir  int32
		Rt   string
		Sub  bool
		Cls  []string
		Mask []string
	}
	Res []struct {
		Chain int
		More  bool
	}
	Rel bool
	Cps []struct {
		K string
		C int
	}
	Paths []struct {
		Node int
		Els  []struct {
			Rt, Name string
			Inv, Sub bool
		}
	}
}
type bCase struct {
	Conf struct {
		Perms map[string][]string
		Roles map[string][]string
	}
	Steps []bStep
}

var bMask = map[string]ua.BrowseResultMask{"rt": ua.BrowseResultMaskReferenceTypeID, "fwd": ua.BrowseResultMaskIsForward, "class": ua.BrowseResultMaskNodeClass,
	"name": ua.BrowseResultMaskBrowseName, "disp": ua.BrowseResultMaskDisplayName, "type": ua.BrowseResultMaskTypeDefinition}
var bClass = map[string]ua.NodeClass{"Object": ua.NodeClassObject, "Variable": ua.NodeClassVariable, "Method": ua.NodeClassMethod, "ObjectType": ua.NodeClassObjectType,
	"VariableType": ua.NodeClassVariableType, "View": ua.NodeClassView, "": ua.NodeClassUnspecified}

type bWorld struct {
	*env
	types map[string]ua.NodeID
	std   map[int]ua.NodeID
}

func (w *bWorld) id(n int) ua.NodeID {
	if n < 0 {
		return w.std[n]
	}
	switch n % 4 {
	case 1:
		return ua.NewNodeIDNumeric(w.ns, uint32(1000+n))
	case 2:
		return ua.NewNodeIDOpaque(w.ns, ua.ByteString(fmt.Sprintf("n%d", n)))
	}
	return ua.NewNodeIDString(w.ns, fmt.Sprintf("n%d", n))
}

func (w *bWorld) num(x ua.ExpandedNodeID) int {
	id := ua.ToNodeID(x, w.srv.NamespaceUris())
	for n := 0; n < 12; n++ {
		if w.id(n) == id {
			return n
		}
	}
	for n, s := range w.std {
		if s == id {
			return n
		}
	}
	if id == nil {
		return -99
	}
	return -98
}

func (w *bWorld) rt(id ua.NodeID) string {
	for n, x := range w.types {
		if x == id {
			return n
		}
	}
	return ""
}

func (w *bWorld) node(n int, d bNode, refs []bRef) server.Node {
	rs := []ua.Reference{}
	for _, r := range refs {
		to := ua.NewExpandedNodeID(w.id(r.To))
		if (n+r.To)%3 == 0 { // the other form of the same target
			to.NamespaceURI = nsURI
		}
		rs = append(rs, ua.Reference{ReferenceTypeID: w.types[r.Rt], IsInverse: r.Inv, TargetID: to})
	}
	if d.Type != 0 {
		rs = append(rs, ua.Reference{ReferenceTypeID: w.types["TypeDef"], TargetID: ua.NewExpandedNodeID(w.id(d.Type))})
	}
	ns := w.ns
	if d.Ns == "zero" {
		ns = 0
	}
	id, bn, dn, de := w.id(n), ua.NewQualifiedName(ns, d.Name), ua.NewLocalizedText("d"+d.Name, ""), ua.NewLocalizedText("", "")
	var perms []ua.RolePermissionType
	if d.Own {
		perms = aPerms(d.Perms)
	}
	switch d.Class {
	case "Object":
		return server.NewObjectNode(w.srv, id, bn, dn, de, perms, rs, 0)
	case "Variable":
		return server.NewVariableNode(w.srv, id, bn, dn, de, perms, rs, ua.NewDataValue(int32(n), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil, 1, 0, false, nil)
	case "Method":
		return server.NewMethodNode(w.srv, id, bn, dn, de, perms, rs, true)
	}
	return server.NewObjectTypeNode(w.srv, id, bn, dn, de, perms, rs, false)
}

func (w *bWorld) qname(q ua.QualifiedName) string {
	if q.Name == "" {
		return ""
	}
	if q.NamespaceIndex == w.ns {
		return "own:" + q.Name
	}
	if q.NamespaceIndex == 0 {
		return "zero:" + q.Name
	}
	return fmt.Sprintf("%d:%s", q.NamespaceIndex, q.Name)
}

func (w *bWorld) desc(rds []ua.ReferenceDescription, mask []string) []obj {
	out := []obj{}
	has := map[string]bool{}
	for _, m := range mask {
		has[m] = true
	}
	for _, r := range rds {
		o := obj{"to": w.num(r.NodeID), "rt": "", "fwd": "", "class": "", "name": w.qname(r.BrowseName), "disp": r.DisplayName.Text, "type": ""}
		if r.ReferenceTypeID != nil {
			o["rt"] = w.rt(r.ReferenceTypeID)
		}
		if has["fwd"] || r.IsForward {
			o["fwd"] = map[bool]string{true: "TRUE", false: "FALSE"}[r.IsForward]
		}
		for n, c := range bClass {
			if c == r.NodeClass {
				o["class"] = n
			}
		}
		if has["type"] || r.TypeDefinition.NodeID != nil {
			o["type"] = "0"
			if n := w.num(r.TypeDefinition); n != -99 {
				o["type"] = fmt.Sprint(n)
			}
		}
		out = append(out, o)
	}
	return out
}

func runBrowse(rec *recorder, raw json.RawMessage) {
	var c bCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	caps := ua.NewServerCapabilities()
	caps.MaxBrowseContinuationPoints = 3
	caps.OperationLimits.MaxNodesPerBrowse, caps.OperationLimits.MaxNodesPerTranslateBrowsePathsToNodeIds = 5, 5
	e := newEnv(rec, server.WithAnonymousIdentity(true), server.WithServerCapabilities(caps), server.WithRolePermissions(aPerms(c.Conf.Perms)),
		server.WithAuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, app, url string) error { return nil }),
		server.WithGetRolesFunc(func(id any, app, url string) ([]ua.NodeID, error) {
			u := "u1"
			if userName(id) == "alice" {
				u = "u2"
			}
			rs := []ua.NodeID{}
			for _, r := range c.Conf.Roles[u] {
				rs = append(rs, aRole(r))
			}
			return rs, nil
		}))
	m := e.srv.NamespaceManager()
	w := &bWorld{e, map[string]ua.NodeID{"References": ua.ReferenceTypeIDReferences, "Hierarchical": ua.ReferenceTypeIDHierarchicalReferences, "NonHierarchical": ua.ReferenceTypeIDNonHierarchicalReferences,
		"HasChild": ua.ReferenceTypeIDHasChild, "Organizes": ua.ReferenceTypeIDOrganizes, "Aggregates": ua.ReferenceTypeIDAggregates, "HasSubtype": ua.ReferenceTypeIDHasSubtype,
		"HasProperty": ua.ReferenceTypeIDHasProperty, "HasComponent": ua.ReferenceTypeIDHasComponent, "HasOrdered": ua.ReferenceTypeIDHasOrderedComponent,
		"ModellingRule": ua.ReferenceTypeIDHasModellingRule, "GeneratesEvent": ua.ReferenceTypeIDGeneratesEvent, "TypeDef": ua.ReferenceTypeIDHasTypeDefinition,
		"rt1": ua.NewNodeIDString(e.ns, "rt1"), "rt2": ua.NewNodeIDString(e.ns, "rt2")},
		map[int]ua.NodeID{-1: ua.ObjectTypeIDBaseObjectType, -2: ua.ObjectTypeIDFolderType, -3: ua.VariableTypeIDBaseDataVariableType, -10: ua.ObjectIDServer, -11: ua.ObjectIDObjectsFolder, -12: ua.NewNodeIDString(0, "nosuch")}}
	for _, x := range [][2]string{{"rt1", "HasComponent"}, {"rt2", "rt1"}} {
		n := server.NewReferenceTypeNode(e.srv, w.types[x[0]], ua.NewQualifiedName(e.ns, x[0]), ua.NewLocalizedText(x[0], ""), ua.NewLocalizedText("", ""), nil,
			[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasSubtype, IsInverse: true, TargetID: ua.NewExpandedNodeID(w.types[x[1]])}}, false, false, ua.NewLocalizedText("", ""))
		if err := m.AddNode(n); err != nil {
			panic(err)
		}
	}
	rtOf := func(n string) ua.NodeID {
		switch n {
		case "any":
			return nil
		case "unknown":
			return ua.NewNodeIDString(e.ns, "nosuch")
		case "notatype":
			return ua.ObjectIDObjectsFolder
		}
		return w.types[n]
	}
	e.serve()
	us := map[string]*sess{"u1": e.userSession("anon"), "u2": e.userSession("pwAlice")}
	cps := map[int][]ua.ByteString{}
	masks := map[int][]string{}
	for i, st := range c.Steps {
		e.until(int64(i * 10))
		ev := obj{"i": i, "res": "Good"}
		res := []obj{}
		var notes []string
		page := func(j int, r ua.BrowseResult, mask []string) {
			res = append(res, obj{"st": code(r.StatusCode), "more": len(r.ContinuationPoint) > 0, "refs": w.desc(r.References, mask)})
			if j < len(st.Res) && st.Res[j].Chain > 0 {
				k := st.Res[j].Chain
				masks[k] = mask
				if len(r.ContinuationPoint) > 0 {
					cps[k] = append(cps[k], r.ContinuationPoint)
				}
			}
		}
		dump := func() {
			all := []obj{}
			for n := 1; n < 12; n++ {
				nd, ok := m.FindNode(w.id(n))
				if !ok {
					continue
				}
				rs := []obj{}
				for _, r := range nd.References() {
					rs = append(rs, obj{"rt": w.rt(r.ReferenceTypeID), "inv": r.IsInverse, "to": w.num(r.TargetID)})
				}
				all = append(all, obj{"n": n, "refs": rs})
			}
			ev["dump"] = all
		}
		switch st.Op {
		case "add":
			nodes := []server.Node{}
			for _, n := range st.Nodes {
				nodes = append(nodes, w.node(n.N, n.D, n.Refs))
			}
			var err error
			if len(nodes) == 1 {
				err = m.AddNode(nodes[0])
			} else {
				err = m.AddNodes(nodes...)
			}
			if err != nil {
				ev["res"] = err.Error()
			}
			dump()
		case "delete":
			var err error
			n := 0
			switch st.K {
			case "id":
				err = m.DeleteNodeByID(w.id(st.Ns[0]))
			case "rec":
				n, err = m.DeleteNodeByIDRecursive(w.id(st.Ns[0]))
			default:
				nodes := []server.Node{}
				for _, n := range st.Ns {
					if nd, ok := m.FindNode(w.id(n)); ok {
						nodes = append(nodes, nd)
					}
				}
				if len(nodes) == 1 {
					err = m.DeleteNode(nodes[0], st.K == "tree")
				} else {
					err = m.DeleteNodes(nodes, st.K == "tree")
				}
			}
			ev["n"] = n
			if s, ok := err.(ua.StatusCode); ok {
				ev["res"] = code(s)
			} else if err != nil {
				ev["res"] = err.Error()
			}
			dump()
		case "browse":
			s := us[st.U]
			q := &ua.BrowseRequest{RequestHeader: hdr(s.token, uint32(i), 0), RequestedMaxReferencesPerNode: st.Max}
			if st.View == "unknown" {
				q.View.ViewID = ua.NewNodeIDString(e.ns, "nosuch")
			} else if st.View == "notaview" {
				q.View.ViewID = ua.ObjectIDObjectsFolder
			}
			for _, o := range st.Ops {
				d := ua.BrowseDescription{NodeID: w.id(o.Node), BrowseDirection: ua.BrowseDirection(o.Dir), ReferenceTypeID: rtOf(o.Rt), IncludeSubtypes: o.Sub}
				for _, x := range o.Cls {
					d.NodeClassMask |= uint32(bClass[x])
				}
				for _, x := range o.Mask {
					d.ResultMask |= uint32(bMask[x])
				}
				q.NodesToBrowse = append(q.NodesToBrowse, d)
			}
			ans, other := s.p.ask(q)
			notes = other
			ev["res"] = rxResult(ans)
			if r, ok := ans.(*ua.BrowseResponse); ok {
				for j, x := range r.Results {
					if j < len(st.Ops) {
						page(j, x, st.Ops[j].Mask)
					}
				}
				if len(r.Results) > len(st.Ops) {
					notes = append(notes, "too many results")
				}
			}
		case "next":
			s := us[st.U]
			q := &ua.BrowseNextRequest{RequestHeader: hdr(s.token, uint32(i), 0), ReleaseContinuationPoints: st.Rel}
			for _, o := range st.Cps {
				var cp ua.ByteString
				last := len(cps[o.C]) - 1
				switch o.K {
				case "cur", "foreign":
					if last >= 0 {
						cp = cps[o.C][last]
					} else {
						cp = "none received"
					}
				case "old":
					cp = cps[o.C][0]
				case "long":
					cp = cps[o.C][last] + "\x00"
				case "short":
					cp = ua.ByteString("\x01\x00\x00"[:1+i%3])
				case "junk":
					cp = ua.ByteString([]string{"\xff\xff\xff\xff", "\x00\x00\x00\x00", "some bytes that are no continuation point"}[i%3])
				}
				q.ContinuationPoints = append(q.ContinuationPoints, cp)
			}
			ans, other := s.p.ask(q)
			notes = other
			ev["res"] = rxResult(ans)
			if r, ok := ans.(*ua.BrowseNextResponse); ok {
				for j, x := range r.Results {
					var mask []string
					if j < len(st.Cps) {
						mask = masks[st.Cps[j].C]
					}
					page(j, x, mask)
				}
			}
		case "translate":
			s := us[st.U]
			q := &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: hdr(s.token, uint32(i), 0)}
			for _, p := range st.Paths {
				b := ua.BrowsePath{StartingNode: w.id(p.Node)}
				for _, x := range p.Els {
					var name ua.QualifiedName
					if x.Name[:3] == "own" {
						name = ua.NewQualifiedName(w.ns, x.Name[4:])
					} else {
						name = ua.NewQualifiedName(0, x.Name[5:])
					}
					b.RelativePath.Elements = append(b.RelativePath.Elements, ua.RelativePathElement{ReferenceTypeID: rtOf(x.Rt), IsInverse: x.Inv, IncludeSubtypes: x.Sub, TargetName: name})
				}
				q.BrowsePaths = append(q.BrowsePaths, b)
			}
			ans, other := s.p.ask(q)
			notes = other
			ev["res"] = rxResult(ans)
			if r, ok := ans.(*ua.TranslateBrowsePathsToNodeIDsResponse); ok {
				for _, x := range r.Results {
					t := []int{}
					for _, y := range x.Targets {
						t = append(t, w.num(y.TargetID))
						if y.RemainingPathIndex != math.MaxUint32 {
							notes = append(notes, fmt.Sprintf("remaining path index %d", y.RemainingPathIndex))
						}
					}
					sort.Ints(t)
					res = append(res, obj{"st": code(x.StatusCode), "targets": t})
				}
			}
		}
		ev["results"] = res
		if len(notes) > 0 {
			ev["notes"] = notes
		}
		rec.emit(ev)
	}
}
