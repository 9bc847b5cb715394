#!/usr/bin/env python3
"""The Java overrides agree with the definitions in spec/Bytes.tla: python3 tools/selfcheck.py"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def run():
    vlib.build_classes()
    c = vlib.Check("selfcheck", "quick", 1)
    text = open(os.path.join(vlib.SPEC, "Bytes.tla")).read().replace("MODULE Bytes", "MODULE BytesDef")
    text = text.replace("EXTENDS Integers, Sequences, TLC", "EXTENDS Integers, Sequences, TLC\nR_ == INSTANCE Bytes", 1)
    text = re.sub(r"(?m)^Sha256\(h\) ==.*$", "Sha256(h) == R_!Sha256(h)", text)
    text = re.sub(r"(?m)^ToInt\(a\) ==.*$", "RECURSIVE ToInt(_)\nToInt(a) == IF a = \"\" THEN 0 ELSE 10 * ToInt(SubSeq(a, 1, Len(a) - 1)) + HexVal(SubSeq(a, Len(a), Len(a)))", text)
    text = re.sub(r"(?m)^ToDec\(n\) ==.*$", "ToDec(n) == ToString(n)", text)
    d = os.path.dirname(c.path("BytesDef.tla"))
    open(os.path.join(d, "BytesDef.tla"), "w").write(text)
    spec, vlib.SPEC = vlib.SPEC, d
    for f in os.listdir(spec):
        if f in ("Bytes.tla", "OverrideMC.tla"):
            open(os.path.join(d, f), "w").write(open(os.path.join(spec, f)).read())
    try:
        c.model("OverrideMC", invs=["Agree", "Published"], what="overrides and definitions")
    finally:
        vlib.SPEC = spec
    print("overrides agree with their definitions: %d states" % c.states)

if __name__ == "__main__":
    run()
