"""Rewrites known_findings.json: the fixes committed to /repo, with the property each of them repairs."""
import json, os, subprocess

P = """10ba415 C01|373c2ae C01|0e24714 C13|64bde08 C12|ffb6c0e C16|298bd74 C02|c4cf060 C02|8bb574d C02|3c3ae77 C02|9a614de C02|36eb294 C03
a4ecf66 C16|79ab8f9 C04|ba05e7e C15|bbb9033 C04|379b5c1 C06|5bfc8b2 C05|7c18762 C06|305fd55 C06|6c8ef86 C15|712ba40 C13|834e954 C12
3360fc8 C06|08076b0 C17|6038ba4 C07|89cf8a9 C12|261abae C18|31d74c4 C15|c87f004 C15|8a40fec C09|edc94d2 C15|fb5d16b C10|36ab8bf C09
d4a27a2 C11|a7e60bf C11|418480a C11|7db8399 C18|d3288da C18|5355eca C16|7272818 C02|efc8248 C14|60a0a01 C13|f4fd596 C13|1c4b730 C12
e849372 C15|a48053e C19|901aee0 C19|1c4b730 C12|ac1bd94 C18|52ef3d2 C19|1131e19 C17|11cf649 C20|599cc66 C18|d83c15e C18|1661fe5 C18|8144caf C17|58b8a57 C01"""
prop = dict(x.split() for x in P.replace("\n", "|").split("|"))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--abbrev=7"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: ") and (h in prop):
        fixed.append("fixed: property=%s %s %s" % (prop[h], h, s[5:]))
    elif s.startswith("fix: "):
        print("no property for", line)
known = []
path = os.path.join(here, "known_findings.json")
if os.path.exists(path):
    known = json.load(open(path))["known"]
json.dump({"known": known, "fixed": fixed}, open(path, "w"), indent=1)
