"""The findings of /verif/known_findings.txt: 'known: property=<id> input=<json text> args=<json list or "*"> <what>'."""
import json, os, re
from . import msio

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def load():
    out = []
    if os.path.exists(PATH):
        for line in open(PATH):
            m = re.match(r"known: property=(\w+) input=(\"(?:[^\"\\]|\\.)*\") args=(\S+) (.*)$", line)
            if m:
                out.append((m.group(1), json.loads(m.group(2)), m.group(3), m.group(4)))
    return out


def match(pid, case):
    text = case.get("text") or msio.file_text(case["names"], p=case["p"], gens=case["gens"])
    for k, t, args, what in load():
        if k == pid and t == text and all(args == "*" or args == ",".join(r["args"]) for r in case["runs"]):
            return what
    return None
