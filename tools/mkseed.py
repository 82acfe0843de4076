#!/usr/bin/env python3
"""mkseed.py: creates a planted bug from a description file (python literal):
{id, property, file, edits: [(old, new)...] or {file: [(old,new)]}, needs, breaks, demo, [src: extra sources], [kokkos], [flags], [libs]}"""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%sg++ -std=gnu++17 -O0 -g -w %s -I src/core -I src/kokkos -I src/pack -I src/algorithm -I src/expression -I src/parser -I src/testing-support -I src/logging -I /usr/lib/x86_64-linux-gnu/openmpi/include "$D/demo.cpp" %s -o "$T/demo" %s || exit 90
cd "$T"; timeout 120 "$T/demo"
'''
# kokkos=2: headers that need View::rank to be callable, and is_view_v (newer Kokkos than the installed one)
KK2 = r'''sed -e 's/enum { Rank = map_type::Rank };/enum { Rank = map_type::Rank };\n  static constexpr std::integral_constant<size_t, map_type::Rank> rank = {};/' -e 's/  using traits = ViewTraits<DataType, Properties...>;/&\n  using element_type = typename traits::value_type;/' /usr/include/Kokkos_View.hpp > "$T/Kokkos_View.hpp"
sed -i '1i #pragma once' "$T/Kokkos_View.hpp"; echo 'namespace Kokkos { template <class T> inline constexpr bool is_view_v = is_view<T>::value; }' >> "$T/Kokkos_View.hpp"
'''
for fn in sys.argv[1:]:
    s = eval(open(fn).read())
    for s in (s if isinstance(s, list) else [s]):
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(); subprocess.run(["cp", "-a", "/repo/src", "/repo/.git", w], check=True)
        ed = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
        for f, es in ed.items():
            t = open(os.path.join(w, f)).read()
            for a, b in es:
                assert t.count(a) == 1, (s["id"], t.count(a), a)
                t = t.replace(a, b)
            open(os.path.join(w, f), "w").write(t)
        p = subprocess.run(["git", "diff", "--", "src"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(p); shutil.rmtree(w)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
        k = s.get("kokkos"); flags = s.get("flags", "") + (" -DEKAT_HAS_KOKKOS -DEKAT_DEFAULT_BFB -DEKAT_ENABLE_MPI -fopenmp -DKOKKOS_ENABLE_CXX17" if k else ""); libs = s.get("libs", "") + (" -lkokkoscore -lkokkoscontainers" if k else "")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (KK2 if k == 2 else "", flags + (' -I "$T"' if k == 2 else ""), " ".join(s.get("src", [])), libs)); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print(s["id"], len(p.splitlines()), "diff lines")
