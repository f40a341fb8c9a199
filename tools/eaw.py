# Writes lib/eaw.json: code-point ranges from Python's Unicode database, used as
# an independent reference for terminal widths (P22).
import unicodedata as u, json
def ranges(f):
    out=[]; start=None
    for c in range(0x110000):
        ok=f(chr(c))
        if ok and start is None: start=c
        if not ok and start is not None: out.append([start,c-1]); start=None
    if start is not None: out.append([start,0x10ffff])
    return out
# 2630-2637, 268A-268F and 4DC0-4DFF became wide in Unicode 16; ambiguous widths have no single answer
skip=lambda ch: u.east_asian_width(ch)=="A" and u.category(ch) not in ("Mn","Me","Cf") or 0x2630<=ord(ch)<=0x2637 or 0x268a<=ord(ch)<=0x268f or 0x4dc0<=ord(ch)<=0x4dff or u.category(ch) in ("Cn","Co","Cs","Cc","Zl","Zp")
json.dump({"unicode":u.unidata_version,
 "wide":ranges(lambda ch: u.east_asian_width(ch) in "WF" and not skip(ch) and u.category(ch) not in ("Mn","Me","Cf")),
 "zero":ranges(lambda ch: u.category(ch) in ("Mn","Me","Cf")),
 "unspecified":ranges(skip)}, open(__file__.rsplit("/",2)[0]+"/lib/eaw.json","w"), separators=(",",":"))
