#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and specs.py
import json
from specs import SPECS
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in SPECS:
        checks.append({"property":i,"quick_cmd":f"python3 check.py {i} --tier quick","thorough_cmd":f"python3 check.py {i} --tier thorough",
          "technique":"symbolic execution of the LLVM IR of the real headers, SMT (Z3, bit-vectors) decides every branch and assertion within stated bounds; counterexamples replayed natively under ASan",
          "level":"model_checking",
          "level_note":"Exhaustive (unless evidence says exhaustive:false) over all paths and values within the bounds; nothing is claimed outside them. Bounds: "+SPECS[i]["bounds"]+" Outside: "+SPECS[i].get("outside","")+" Trusted: clang 18 front end at -O1, the executor in engine/ (cross-checked by native replay of sampled paths), Z3."})
    else: na.append({"property":i,"reason":"see DESIGN.md"})
json.dump({"version":1,"setup_cmd":"bash engine/build.sh","checks":checks,"not_applicable":na},open("/verif/MANIFEST.json","w"),indent=1)
