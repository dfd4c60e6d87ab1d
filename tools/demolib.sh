# Sourced by the demonstrations: a scratch installation of the maike2 built in the current directory.
repo=$PWD
scratch=$(mktemp -d)
trap 'chmod -R u+rwX "$scratch"; rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1
mkdir -p "$scratch/inst/bin" "$scratch/inst/lib/maike2/recipes" "$scratch/p"
cp "$repo/__targets_vp/bin/maike2" "$scratch/inst/bin/"
cp "$repo"/recipes/*.py "$repo"/recipes/*.xsl "$scratch/inst/lib/maike2/recipes/" 2>/dev/null
maike="$scratch/inst/bin/maike2"
# the recipe "rec": notes the source file in $scratch/log and writes each target
cat >"$scratch/inst/lib/maike2/recipes/rec" <<'R'
#!/usr/bin/env python3
import json, os, sys, time
if sys.argv[1] != "compile":
    sys.exit(0)
a = json.loads(sys.argv[2])
top = os.environ["DEMO_TOP"]
with open(top + "/log", "a") as f:
    f.write("start " + a["source_file"] + "\n")
with open(top + "/args", "a") as f:
    f.write(json.dumps(a) + "\n")
hook = top + "/hook_" + a["source_file"].replace("/", "_")
if os.path.exists(hook):
    r = os.system("sh " + hook)
    if r:
        sys.exit(1)
for t in a["targets"]:
    if os.path.isdir(a["source_file"]):
        os.makedirs(t, exist_ok=True)
    else:
        text = "".join(sorted(open(d["ref"]).read() for d in a["dependencies"] if d["origin"] in ("project", "generated") and os.path.isfile(d["ref"])))
        open(t, "w").write(open(a["source_file"]).read() + text)
with open(top + "/log", "a") as f:
    f.write("end " + a["source_file"] + "\n")
R
chmod +x "$scratch/inst/lib/maike2/recipes/rec"
export DEMO_TOP="$scratch"
cat >"$scratch/p/maikeconfig.json" <<'C'
{"maikeconfig":{
 "dir_compiler":{"recipe":"rec","config":{}},
 "source_file_info_loaders":{
  "cxx":{"loader":"cxx_src_loader","compiler":{"recipe":"rec","config":{}},"config":{"generated_includes":["\\.gen\\.hpp$"]}},
  "rule":{"loader":"maikerule","compiler":{"recipe":"rec","config":{}}},
  "app":{"loader":"app","compiler":{"recipe":"rec","config":{}}},
  "lib":{"loader":"lib","compiler":{"recipe":"rec","config":{}}},
  "ext":{"loader":"extension","compiler":{"recipe":"","config":{}}}
 },
 "source_tree_loader":{"file_info_loaders":{".cpp":"cxx",".hpp":"cxx",".rule":"rule",".app":"app",".lib":"lib",".sh":"ext"},
  "input_filter":["^\\.","^__","^maikeconfig"],"fullpath_input_filter":[],"recursive":1}}}
C
cd "$scratch/p"
fail() { echo "$*"; exit 1; }
