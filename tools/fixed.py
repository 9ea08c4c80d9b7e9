#!/usr/bin/env python3
"""Regenerates the "fixed" entries of known_findings.jsonl from the fix: commits in /repo (entries with status open are kept)."""
import subprocess, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
def m(pid, *hs):
    for h in hs: P[h] = pid
m("C01", "4db8237", "64497b0", "982ad5a", "e1200ab"); m("C02", "cc7e532", "374fdc9", "d859e6a", "81a95aa"); m("C03", "824cbb9", "e8f920c")
m("C13", "ec548d3", "8c52ab0", "79fa349", "5b0bc71"); m("C14", "512f16c", "1500f18", "7d891fb", "997a30a"); m("C16", "c8eaac7"); m("C17", "9027a7e"); m("C15", "ecff686"); m("C09", "be6473f"); m("C18", "56f177d"); m("C20", "29be0ee"); m("C19", "28b6ffe")
m("C05", "5589afd"); m("C06", "3170338"); m("C07", "a264e94", "e8055d3"); m("C08", "68868e8")
m("C10", "65376e0", "f697f7f", "d96ce81", "97e8863", "14897f3", "a79e1c3", "2e11d96", "1bfa0ff", "453ac5d"); m("C11", "a844e08", "8ea8331", "ef4bed0", "18314ec", "faf07b2", "09ca915"); m("C12", "9abc4d8"); m("C21", "54346bf", "a239e72")
m("C22", "d0cb13b", "1bc2469", "5f7aeb2", "c9ee4a3", "fba02b0", "9689781", "7950156", "fff5b48", "3f3e87d"); m("C23", "8654d9f", "e7dc2ef", "9a12876", "1a3d553", "b2170c3")
m("C25", "a631bda", "195eaf6", "1603d4f"); m("C24", "b83eaf4", "a874a1a"); m("C26", "0642d0c", "81b8ba1", "3f07d71", "7ac34d4"); m("C28", "a3b2f21", "032ec44", "57f96c1", "38eae3b")
m("C29", "048e8a9", "2b42db3", "ff32dc7", "6f53bf9", "21eca32"); m("C30", "d77b214", "e41aeb6", "3f55903", "774565d", "bfdb018", "917dbe0")
m("-", "634cb52")
m("C31", "a99e29e", "9c4082e", "aef32e6"); m("C32", "0c590ae", "70c7e9d", "8d354c4", "1149271", "e9af4e7", "30e90ed"); m("C33", "fcbc040", "8e7d42e", "2c3ef3f", "0ffffa3", "bf7069a"); m("C34", "fefb807", "6f1e08f", "9118752", "c85ef1a", "56a4bdf", "f5f0f33", "b6e4781")
m("C35", "c6bc1ff"); m("C38", "5c2c116", "b49539c"); m("C37", "9485e1c", "ac90b36", "3cedf16", "fb4c2ce", "007a64c", "3a0ae62", "14714be", "ad43613", "882227e", "023c031", "ac85f6b")
m("C39", "cd08c56", "4fd9117", "528e329")
m("C04", "5ef5194","f6f8ba6","519638f","757ffb4","ff84108","26b5f60","40de922","00701f9","b153731","adfa639","31efa0a","ba5e025","fd189aa","4c61801","5cc5268","684cc69")
m("C43","cc47cc1","fac7e7f"); m("C44","e8d551c","b00b42a","0a606aa","8462f07","57b40d5","6389fbd","6b2ef72"); m("C39","966a625")
m("C45","ff823c9")
m("C09","ee11eb2")
#MORE
f = os.path.join(V, "known_findings.jsonl")
old = [json.loads(l) for l in open(f)] if os.path.exists(f) else []
out = [e for e in old if e.get("status") == "open"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    pid = P.get(h)
    if pid is None: print("no property for", l); continue
    if pid == "-": continue
    out.append({"id": "fixed-" + h, "property": pid, "status": "fixed", "summary": f"fixed: property={pid} {h} {s[5:]}"})
open(f, "w").write("".join(json.dumps(e) + "\n" for e in out)); print(len(out), "entries")
