#!/usr/bin/env python3
"""Writes harness/spec_grammar.h from the Khronos machine-readable grammar (package spirv-headers): the independent reference of C10-C12, C20, C26."""
import json
D = "/usr/include/spirv/unified1/"
core = json.load(open(D + "spirv.core.grammar.json"))
out = []
def ver(v):
    if v is None: return "0"
    if v == "None": return "none"
    a, b = v.split("."); return str((int(a) << 16) | (int(b) << 8))
def lst(x): return ",".join(x) if x else "-"
def ops(o): return " ".join(x["kind"] + x.get("quantifier", "") for x in o)
capnum = {e["enumerant"]: e["value"] for k in core["operand_kinds"] if k["kind"] == "Capability" for e in k["enumerants"]}
def num(v): return int(v, 16) if isinstance(v, str) else v
for k in core["operand_kinds"]:
    if k["category"] == "Composite": out.append(f"C {k['kind']} {' '.join(k['bases'])}")
    else: out.append(f"K {k['kind']} {k['category']}")
    for e in k.get("enumerants", []):
        out.append(f"V {k['kind']} {num(e['value'])} {e['enumerant']} {ver(e.get('version'))} {ver(e.get('lastVersion'))} {','.join(str(capnum[c]) for c in e.get('capabilities', [])) or '-'} {lst(e.get('extensions'))} {ops(e.get('parameters', []))}".rstrip())
for i in core["instructions"]:
    out.append(f"I {i['opcode']} {i['opname']} {i['class'].replace(' ', '_') if i['class'][0] != '@' else 'Exclude'} {ver(i.get('version'))} {ver(i.get('lastVersion'))} {','.join(str(capnum[c]) for c in i.get('capabilities', [])) or '-'} {lst(i.get('extensions'))} {ops(i.get('operands', []))}".rstrip())
for n, f in (("1", "extinst.glsl.std.450.grammar.json"), ("2", "extinst.opencl.std.100.grammar.json")):
    for i in json.load(open(D + f))["instructions"]:
        out.append(f"E {n} {i['opcode']} {i['opname']} {','.join(str(capnum[c]) for c in i.get('capabilities', [])) or '-'} {ops(i.get('operands', []))}".rstrip())
with open("/verif/harness/spec_grammar.h", "w") as f:
    f.write("// generated by tools/gen_spec.py from the Khronos SPIR-V grammar (spirv-headers)\n#pragma once\nstatic const char* const specGrammarText[] = {\n")
    for l in out: f.write('"' + l + '",\n')
    f.write("nullptr };\n")
print(len(out))
