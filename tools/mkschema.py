#!/usr/bin/env python3
"""Writes spec/CodecSchema.tla: the structures of the OPC UA standard, from Opc.Ua.Types.bsd and NodeIds.csv of the standard
(run once; the result is committed and is the reference, whatever /repo contains later)."""
import csv, re, sys, xml.etree.ElementTree as ET
BSD = sys.argv[1] if len(sys.argv) > 1 else "/repo/schema/Opc.Ua.Types.bsd"
IDS = sys.argv[2] if len(sys.argv) > 2 else "/root/go/pkg/mod/github.com/gopcua/opcua@v0.6.1/schema/NodeIds.csv"
NS = "{http://opcfoundation.org/BinarySchema/}"
root = ET.parse(BSD).getroot()
ids = {r[0]: int(r[1]) for r in csv.reader(open(IDS)) if len(r) == 3}
BUILTIN = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid",
           "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode", "QualifiedName", "LocalizedText", "ExtensionObject", "DataValue", "Variant", "DiagnosticInfo"}
enums = {e.get("Name"): int(e.get("LengthInBits")) for e in root.findall(NS + "EnumeratedType")}
structs = {}
for e in root.findall(NS + "StructuredType"):
    n = e.get("Name")
    if n in BUILTIN or n in ("TwoByteNodeId", "FourByteNodeId", "NumericNodeId", "StringNodeId", "GuidNodeId", "ByteStringNodeId"):
        continue
    fs, ok = [], True
    lens = {f.get("LengthField") for f in e.findall(NS + "Field")}
    for f in e.findall(NS + "Field"):
        if f.get("SwitchField") or f.get("Length"):
            ok = False
        if f.get("Name") in lens:
            continue
        t = f.get("TypeName").split(":")[1]
        t = {"CharArray": "String"}.get(t, t)
        if t in enums:
            t = {32: "Int32", 16: "UInt16", 8: "Byte"}[enums[t]]
        fs.append((f.get("Name"), t, f.get("LengthField") is not None))
    if ok:
        structs[n] = fs
# its identifier differs between versions of the standard
structs.pop("ProgramDiagnostic2DataType", None)
# drop what uses an unknown type
while True:
    bad = [n for n, fs in structs.items() if any(t not in BUILTIN and t not in structs for _, t, _ in fs)]
    if not bad:
        break
    print("dropped", bad, file=sys.stderr)
    for n in bad:
        del structs[n]
def has(n, seen=()):
    """the structure holds values of arbitrary depth"""
    return n in seen or any(t in ("Variant", "DataValue", "ExtensionObject", "DiagnosticInfo") or t in structs and has(t, seen + (n,)) for _, t, _ in structs[n])
out = ["---- MODULE CodecSchema ----", "(* Generated by tools/mkschema.py from the standard: the fields of every structure (name, type, array), and the", "   identifiers of their binary encodings. *)", "Schema == ["]
out.append(",\n".join('  %s |-> <<%s>>' % (n, ", ".join('<<"%s", "%s", %s>>' % (a, t, "TRUE" if arr else "FALSE") for a, t, arr in fs)) for n, fs in sorted(structs.items())))
out.append("]\nEncodingId == [")
withid = {n: ids[n + "_Encoding_DefaultBinary"] for n in structs if n + "_Encoding_DefaultBinary" in ids}
out.append(",\n".join("  %s |-> %d" % x for x in sorted(withid.items())))
out.append("]\nFlat == <<" + ", ".join('"%s"' % n for n in sorted(withid) if not has(n)) + ">>")
out.append("Names == <<" + ", ".join('"%s"' % n for n in sorted(withid)) + ">>")
out.append("====")
open("/verif/spec/CodecSchema.tla", "w").write("\n".join(out) + "\n")
print(len(structs), len(withid), [n for n in structs if n not in withid])
