#!/usr/bin/env python3
"""Records the embedded assets (harness/assets.inc): size and FNV-1a digest of each content. Run by hand after an asset is upgraded; every asset is decompressed first (node)."""
import os, re, subprocess, sys, tempfile
repo = os.environ.get("VERIF_REPO", "/repo")
out = []
for f in ("Index", "Babel", "React", "Jasmine"):
    s = open("%s/include/system/%sFS.hpp" % (repo, f)).read()
    for m in re.finditer(r'struct (\w+) \{\s*static constexpr std::string_view encoding\{"(\w*)"\};\s*static constexpr size_t dataSize\{(\d+)\};\s*static constexpr std::array<uint64_t, (\d+)> data\{(.*?)\};', s, re.S):
        n, enc, sz, cnt, body = m.groups()
        b = b"".join(int(x, 16).to_bytes(8, "big") for x in re.findall(r"0x([0-9a-fA-F]+)", body))[:int(sz)]
        with tempfile.NamedTemporaryFile() as t:
            t.write(b)
            t.flush()
            subprocess.run(["node", "-e", "const z=require('zlib'),b=require('fs').readFileSync('%s');%s(b)" % (t.name, "z.gunzipSync" if enc == "gzip" else "z.brotliDecompressSync")], check=True)
        h = 0xcbf29ce484222325
        for c in b:
            h = (h ^ c) * 0x100000001b3 & 0xffffffffffffffff
        out.append('{"%s", "%s", %s, 0x%016xull},' % (n, enc, sz, h))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "assets.inc"), "w").write("\n".join(out) + "\n")
