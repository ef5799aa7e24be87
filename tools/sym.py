#!/usr/bin/env python3
"""sym.py BINARY < text: resolves code addresses in the text."""
import re, subprocess, sys
def resolve(binary, text):
    addrs = sorted(set(re.findall(r"0x4[0-9a-f]{5}\b|0x5[0-9a-f]{5}\b", text)))
    if not addrs: return text
    try:
        out = subprocess.run(["addr2line", "-e", binary, "-f", "-C", "-s"] + addrs,
                             capture_output=True, text=True, timeout=60).stdout.splitlines()
    except Exception:
        return text
    m = {}
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(out):
            fn = out[2*i].split("(")[0]
            m[a] = "%s[%s %s]" % (a, fn[-60:], out[2*i+1])
    return re.sub(r"0x[45][0-9a-f]{5}\b", lambda x: m.get(x.group(0), x.group(0)), text)
if __name__ == "__main__":
    sys.stdout.write(resolve(sys.argv[1], sys.stdin.read()))
