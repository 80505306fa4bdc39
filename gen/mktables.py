"""writes spec/Tables.tla: exp and log tables used by the specification's integer arithmetic"""
import math, os
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Tables.tla")
def seq(name, vals):
    s = name + " == <<\n"
    for i in range(0, len(vals), 16):
        s += "  " + ", ".join(str(v) for v in vals[i:i+16]) + (",\n" if i + 16 < len(vals) else "\n")
    return s + ">>\n"
t = "------------------------------- MODULE Tables -------------------------------\n"
t += "(* generated by gen/mktables.py *)\n"
t += "\\* ExpTab[n+1] = 10^6 * exp(-n/128), n = 0 .. 1856\n"
t += seq("ExpTab", [round(1e6 * math.exp(-n / 128)) for n in range(1857)])
t += "\\* LnMant[n+1] = 10^5 * ln(1 + n/256), n = 0 .. 256\n"
t += seq("LnMant", [round(1e5 * math.log(1 + n / 256)) for n in range(257)])
t += "\\* LnTab[n] = 10^5 * ln(n), n = 1 .. 2000\n"
t += seq("LnTab", [round(1e5 * math.log(n)) for n in range(1, 2001)])
t += "=============================================================================\n"
open(out, "w").write(t)
