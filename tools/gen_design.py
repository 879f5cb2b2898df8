import json,importlib.util
s=importlib.util.spec_from_file_location("d","/verif/tools/desc.py"); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
props={json.loads(l)["id"]:json.loads(l) for l in open("/verif/properties.jsonl")}
out=open("/verif/tools/design_head.md").read()
out+="\n## Per property\n\n"
for k,v in m.D.items():
    p=props[k]
    out+=f"### {k} {p['title']}\n\nMethod: {v[0]}.\n\n{v[1]}\n\nWhy tests cannot: {p['why_tests_cant']}\n\n"
out+=open("/verif/tools/design_tail.md").read()
open("/verif/DESIGN.md","w").write(out)
