import json,subprocess,importlib.util,jsonschema
s=importlib.util.spec_from_file_location("d","/verif/tools/desc.py"); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
hook=subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=^hook:"],text=True).split()
NOTE=" Exhaustive within these bounds only; field and curve arithmetic (amcl), merlin/STROBE, rustc and the harness's own model are trusted, and cryptographic assumptions (discrete log, hash) are taken as given."
man={"version":1,"setup_cmd":"bash check.sh build",
 "hooks":{"guard":"cfg(mc_hooks)","enable":"RUSTFLAGS='--cfg mc_hooks' (set by check.sh)","source_commits":hook},
 "checks":[{"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":v[0],"level":"model_checking","level_note":v[1]+NOTE} for k,v in m.D.items()],
 "not_applicable":[],
 "notes":"Design, bounds and planted-bug results: DESIGN.md. Repaired defects: KNOWN_FINDINGS.txt."}
jsonschema.validate(man,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(man,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
json.dump({k:v[1] for k,v in m.D.items()},open("/verif/mc/desc.json","w"),indent=1)
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert ids==list(m.D), set(ids)^set(m.D)
