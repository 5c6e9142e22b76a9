"""Rewrites the generated parts of DESIGN.md: the table of properties, and that of planted bugs.
usage: design.py [log of runs against planted bugs: `id rc=1 ... | first line of the output`]"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks  # noqa: E402

cell = lambda s: s.replace("|", "\\|")


def table():
    rows = ["| property | specification and oracle | what is explored | s |", "|---|---|---|---|"]
    for line in open(f"{V}/properties.jsonl"):
        p = json.loads(line)
        c = checks.CHECKS[p["id"]]
        try:
            e = json.load(open(f"{V}/evidence/{p['id']}.json"))
            s = round(e["wall_s"]) if e["tier"] == "quick" else "?"
        except FileNotFoundError:
            s = "?"
        rows.append(f"| **{p['id']}** {cell(p['title'])} | {cell(c['technique'])} | {cell(c['level_note'])} {cell(c['rule'])} | {s} |")
    return "\n".join(rows)


def seeded(log):
    rows = ["| planted bug | needs | what it breaks | caught by |", "|---|---|---|---|"]
    caught = {}
    for line in open(log):
        m = re.match(r"(\S+) rc=(\d+)", line)
        if m:
            caught[m.group(1)] = m.group(2) == "1"
    n = 0
    for d in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        n += 1
        rows.append(f"| {d} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} | {m['property'] if caught.get(d) else 'missed' if d in caught else m['property'] + ' (when planted)'} |")
    return f"{n} planted bugs; {len(caught)} were run again with the last checks, {sum(caught.get(d, False) for d in os.listdir(f'{V}/seeded'))} of them caught.\n\n" + "\n".join(rows)


text = open(f"{V}/DESIGN.md").read()


def put(name, new):
    global text
    text = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + new + "\n" + m.group(2), text, flags=re.S)


put("properties", table())
if len(sys.argv) > 1:
    put("planted", seeded(sys.argv[1]))
open(f"{V}/DESIGN.md", "w").write(text)
