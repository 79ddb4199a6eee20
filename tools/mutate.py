#!/usr/bin/env python3
"""Mutation survey: mutate.py N SEED WORKER  -- small random changes of /repo in a scratch copy, run the checks of the file, report survivors.
Not a check; used while developing to find what the checks do not see."""
import os, random, re, shutil, subprocess, sys, time
N, SEED, W = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; ONLY = sys.argv[4] if len(sys.argv) > 4 else ""
V = "/tmp/mut_%s" % W; REPO = V + "/repo"; VER = V + "/verif"
shutil.rmtree(V, ignore_errors=True); os.makedirs(V)
subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True); subprocess.run(["git", "clone", "-q", "/verif", VER], check=True)
MAP = { "inc/midi/universal_packet.h": "C01 C29", "src/universal_packet.cpp": "C29", "inc/midi/types.h": "C02 C03 C04 C27", "inc/midi/midi1_channel_voice_message.h": "C05 C07 C08", "inc/midi/midi2_channel_voice_message.h": "C06 C07 C08",
 "inc/midi/channel_voice_message.h": "C07 C08", "inc/midi/system_message.h": "C09", "inc/midi/utility_message.h": "C09 C28", "inc/midi/flex_data_message.h": "C10 C12", "inc/midi/stream_message.h": "C11 C12",
 "inc/midi/midi1_byte_stream.h": "C15 C13 C14", "src/midi1_byte_stream.cpp": "C15 C13 C14", "inc/midi/data_message.h": "C16 C17", "inc/midi/extended_data_message.h": "C16 C17", "inc/midi/sysex.h": "C27 C17 C21", "src/sysex.cpp": "C27 C17 C21",
 "inc/midi/sysex_collector.h": "C19 C18", "src/sysex_collector.cpp": "C19 C18", "inc/midi/capability_inquiry.h": "C24 C21 C22 C20 C23 C25", "src/capability_inquiry.cpp": "C24 C21 C22 C20 C23 C25", "inc/midi/universal_sysex.h": "C26 C20 C21", "src/universal_sysex.cpp": "C26 C20",
 "inc/midi/jitter_reduction_timestamps.h": "C28", "src/jitter_reduction_timestamps.cpp": "C28" }
rng = random.Random(SEED)
def sites(path):
    out = []; txt = open(REPO + "/" + path).read().split("\n")
    for i, l in enumerate(txt):
        c = l.split("//")[0]
        if not c.strip() or c.strip().startswith(("#", "*", "assert", "namespace", "using", "template", "static_assert")): continue
        def add(a, b, new): out.append((path, i, l[:a] + new + l[b:]))
        for m in re.finditer(r"\b0x([0-9A-Fa-f]+)(u|ull)?\b", c):
            v = int(m.group(1), 16); k = rng.choice([1, 1 << rng.randrange(max(1, v.bit_length())), v.bit_length() and 1 << (v.bit_length() - 1) or 1])
            add(m.start(), m.end(), "0x%X%s" % (v ^ k, m.group(2) or ""))
        for m in re.finditer(r"(?<![\w.])(\d+)(u|ull)?(?![\w.xX])", c): add(m.start(), m.end(), str(max(0, int(m.group(1)) + rng.choice([-1, 1]))) + (m.group(2) or ""))
        for a, bs in (("size_t", ["uint16_t", "uint8_t"]), ("uint32_t", ["uint16_t", "uint8_t"]), ("uint16_t", ["uint8_t", "int16_t"]), ("int64_t", ["int32_t"]), ("int32_t", ["int16_t", "uint32_t"]), ("std::min", ["std::max"]), ("std::max", ["std::min"])):
            for m in re.finditer(r"(?<![\w])" + re.escape(a) + r"\b", c): add(m.start(), m.end(), rng.choice(bs))
        for a, bs in ((" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= ", " < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]), (" && ", [" || "]), (" || ", [" && "]), (" + ", [" - "]), (" - ", [" + "]), (" << ", [" >> "]), (" >> ", [" << "]), (" | ", [" & "]), (" & ", [" | "]), ("|= ", ["= "]), ("+= ", ["= "]), ("++", ["--"]), ("true", ["false"]), ("false", ["true"]), ("(!", ["("])):
            for m in re.finditer(re.escape(a), c): add(m.start(), m.end(), rng.choice(bs))
        if re.match(r"^\s+[\w.\->\[\]():]+(\([^{}]*\))?\s*([|+\-&]?=[^=].*)?;\s*$", c) and not re.match(r"^\s*(return|break|const|auto|static|constexpr|friend|explicit|virtual|bool|u?int\w*|size_t|void|std::|continue)\b", c): out.append((path, i, re.match(r"^\s*", c).group(0) + ";"))
    return out
allsites = [s for p in MAP if not ONLY or re.search(ONLY, p) for s in sites(p)]
rng.shuffle(allsites)
print("%d sites" % len(allsites)); sys.stdout.flush()
stat = dict(caught=0, survived=0, noanswer=0, nocompile=0)
for path, i, new in allsites[:N]:
    f = REPO + "/" + path; orig = open(f).read(); ls = orig.split("\n")
    if ls[i] == new: continue
    old = ls[i]; ls[i] = new; open(f, "w").write("\n".join(ls))
    r = subprocess.run("cat inc/midi/*.h > /dev/null; for s in src/*.cpp; do clang++-18 -std=c++17 -w -fsyntax-only -Iinc $s || exit 1; done; echo '#include <midi/%s>\nint main(){}' | clang++-18 -std=c++17 -w -fsyntax-only -Iinc -x c++ -" % os.path.basename(path if path.endswith(".h") else "types.h"), shell=True, cwd=REPO, capture_output=True)
    res = "survived"; by = ""; t = time.time()
    if r.returncode: res = "nocompile"
    else:
        for c in (MAP[path] + " C30").split():
            r = subprocess.run(["python3", "check.py", c], cwd=VER, env=dict(os.environ, VF_REPO=REPO, VF_WALL="300"), capture_output=True, text=True)
            if r.returncode == 1: res = "caught"; by = c; break
            if r.returncode != 0: res = "noanswer"; by += c + " " + " ".join(r.stdout.split("\n")[1:])[:300]
    stat[res] += 1
    if res in ("survived", "noanswer"): print("%s %s:%d %s\n  - %s\n  + %s" % (res.upper(), path, i + 1, by, old.strip(), new.strip()))
    else: print("%s %s %s:%d %.0fs" % (res, by, path, i + 1, time.time() - t))
    sys.stdout.flush(); open(f, "w").write(orig)
print(stat); shutil.rmtree(V, ignore_errors=True)
