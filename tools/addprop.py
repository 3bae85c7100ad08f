"""Insert a property dict (read as Python source on stdin) into tools/props.py, keeping the order of ids."""
import re
import sys

p = "/verif/tools/props.py"
s = open(p).read()
new = sys.stdin.read().strip().rstrip(",")
d = eval(new)
head, body = s.split("PROPS = [\n", 1)
items = re.split(r"(?m)^(?=    dict\()", body.rstrip()[:-1].rstrip())
items = [i.rstrip() for i in items if i.strip()]
items = [i for i in items if not i.startswith(f'    dict(\n        id="{d["id"]}"')]
items.append("    " + new + ",")
items.sort(key=lambda i: re.search(r'id="(C\d+)"', i).group(1))
open(p, "w").write(head + "PROPS = [\n" + "\n".join(items) + "\n]\n")
