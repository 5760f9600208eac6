"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = dict(x.split(":") for x in """c9a402f:C09 fa46baf:C11 d21c27c:C11 b6f4a21:C04 138a786:C04 5290875:C04 232f72f:C11 f9aeadf:C03
bd51319:C11 ea9ea4a:C21 82aa56d:C21 cc74017:C07 d7b8dff:C09 ad37b22:C03 cca0a11:C10 7943d97:C06 84ad0f8:C18 ee7158f:C06 b4edde1:C16
2a66e45:C19 e14360c:C12 f7acf02:C16 686e7a7:C09 0e372da:C21 75250d2:C12 8e0cdf6:C12 9b37c79:C12 98d5f47:C19 d6e6ce7:C20 dfd9e28:C01
24e1c4f:C04 50828de:C10 7dfd169:C17 116285f:C16 a38a1b4:C13 9caa7d0:C11 6e541fa:C21 319e5b4:C24 4f5bcb4:C08 0ccdb88:C21 85ce542:C13
7e0569f:C21 c2f3cae:C08 07cfdad:C04 1a1ca1a:C21 a0ffc20:C21 09c46b5:C22 bf90263:C16 d07c21f:C08 4b298a2:C21 e776969:C12 87d296c:C04
9933bbc:C12 d418d64:C12 13c337d:C12 ddb751b:C11""".split())
MAP.update(x.split(":") for x in open(os.path.join(V, "tools", "fixmap.txt")).read().split()) if os.path.exists(os.path.join(V, "tools", "fixmap.txt")) else None
k = os.path.join(V, "known_findings.json")
d = json.load(open(k)) if os.path.exists(k) else {"findings": []}
d["fixed"] = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        d["fixed"].append("fixed: property=%s %s %s" % (MAP[h[:7]], h, s[4:].strip()))
json.dump(d, open(k, "w"), indent=1, ensure_ascii=False)
print(len(d["fixed"]), "fixed,", len(d["findings"]), "findings")
