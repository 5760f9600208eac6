import sys
from ama import Pool
pool = Pool(4)
text = open(sys.argv[1]).read()
progs = [p.strip("\n") + "\n" for p in text.split("\n====\n")]
def mk(p):
    files={}; cur='m.ama'; buf=[]
    for l in p.split("\n"):
        if l.startswith("--- "):
            files[cur]="\n".join(buf)+"\n"; cur=l[4:]; buf=[]
        else: buf.append(l)
    files[cur]="\n".join(buf)
    return {"files":files,"main":"m.ama","stdin":"a\n5\n"}
for p,r in zip(progs, pool.run([mk(p) for p in progs])):
    print("#"*10); print(p.rstrip()); print("-->", r["kind"], r["status"], r["code"]); print(r["out"],end="")
    if r["err"]: print("ERR:", r["err"].strip()[-400:])
