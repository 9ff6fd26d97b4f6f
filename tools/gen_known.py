#!/usr/bin/env python3
# Writes known_findings.json: no open finding; every repaired defect with the property it broke.
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
PROP = {}
def p(prop, *hs):
    for h in hs: PROP[h] = prop
p("C01", "017b8aa")
p("C02", "f5b93e6", "168d419", "9fbb8f2", "2115d96")
p("C03", "f998cf9", "d63368c", "e12f456", "bfc786b", "93c6649", "a0928ab")
p("C04", "039936e")
p("C05", "5ae8c25", "bb9fb48")
p("C06", "adac2d9", "ee1f7d3", "d1bdaf1", "a2afd74", "159c1b9")
p("C07", "b0ec193")
p("C08", "a86d4b1", "3b62d76", "456d986", "c84ad8f")
p("C09", "28a05b0", "5ba2a59", "711122a", "54ee8e8", "849d9c2", "0630b88", "69b3902", "7aa599b", "324c8ef", "0f585f0", "292de21", "ab56921")
p("C10", "598b517", "0aeb3e3")
p("C11", "d4a8c7b")
p("C13", "2b26458", "68a926a", "7c9a58c")
p("C14", "0bfe67e")
p("C15", "65fa231", "cd81db0", "a712b74", "8a975ba", "19e46b2", "6a0d1f2", "2fd2cd9", "e3aa53f", "87a9d25", "0074f00", "b644297", "c279b32", "53cbb63")
p("C17", "5ec6bf1", "10df12c", "655b437", "7f021a4", "321cd93", "1e9496e", "f9bb0b7", "224fe67", "acf3daa", "44263af", "83b076a", "d674e67")
p("C18", "c32ac05", "b3584c5", "581b4cf", "02a60ea", "945d51f", "fa38784", "ae7cd31", "c58e3ba")
p("C19", "7d93c86", "861944d", "deee34c", "04cf027", "96dd4b4", "a519591", "61d7950", "98800f7", "6231244")
p("C20", "47208e1", "04b9cfc", "8e31027", "d294ab2")
p("C21", "dfe8fab", "320f53a")
p("C22", "7fc9421", "033182a")
p("C23", "210f643", "ab724d1", "267f7a0", "53933d2", "b75e1c2", "76f36f6", "c822bd0", "3bcaf5e", "8033bc9", "46b9f80", "6a4319f")
p("C24", "1289a27")
p("C25", "657ed4e", "0a82953", "becd725", "73971e4", "933bac7", "6f2610c", "de6ba19")
p("C26", "82e91e5")
p("C27", "1d5af41", "4543de6")
log = subprocess.check_output(["git", "-C", repo, "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out, missing = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    if h[:7] not in PROP: missing.append(l); continue
    out.append("fixed: property=%s %s %s" % (PROP[h[:7]], h, s[5:]))
if missing: print("NO PROPERTY FOR:\n" + "\n".join(missing)); sys.exit(1)
with open(os.path.join(V, "known_findings.json"), "w") as f: json.dump({"findings": [], "fixed": out}, f, indent=1); f.write("\n")
print(len(out), "fixed,", 0, "open")
