"""Regenerates the 'fixed:' part of known_findings.txt from the fix commits in /repo (findings are kept by hand in FINDINGS below)."""
import subprocess
PID = {
 "optional fields of gzip":"P06","truncated compressed stream":"P08","inflate state":"P08","Gzip_Out reports":"P09","missing file for reading no longer":"P09",
 "binary values read past":"P08","BGEO reader stops":"P08","BGEO skipping":"P12","BGEO files with a negative":"P08","BGEO diagnostics":"P28",
 "GEO strings longer":"P03","GEO files that only":"P03","GEO reader refuses":"P08","GEO writer reports":"P09","zero-width":"P13","renaming indexed strings":"P17",
 "reading headers refuses duplicate":"P07","renaming an indexed string":"P17","sorting empty":"P19","fixed attributes of interleaved":"P14","gathering attributes":"P16",
 "interleaved data sets can be sorted":"P14","clone with a rename":"P20","merge initialises":"P21","merge keeps the strings":"P21","hashing negative":"P22",
 "clustering a set":"P22","readCached sorts":"P10","tables of readers":"P12","PDB reader refuses":"P08","PDB reader does not iterate":"P08","all decompressed data":"P29","PDB reader tells":"P02","PDA reader":"P08","PDC reader":"P08",
 "PRT reader":"P04","PRT writer":"P05","PTC reader refuses":"P08","PTC writer":"P02","BIN reader":"P08","BIN writer":"P02","PTS reader":"P04","MC reader":"P08",
 "files shorter than":"P04","ZIP reader finds":"P29","merge only copies":"P21","particles appended by merge":"P21",
 "iterators reach the end":"P15","iterator set up behind":"P15","clustering clamps":"P22",
 "reading a damaged file through the cache":"P08","BGEO files that repeat":"P08","growing sets of hundreds":"P13","merging a set into itself":"P21","RIB writer reports":"P09",
 "clone and cloneSchema of the Python":"P23","query points of the Python":"P24","the Python module checks attribute handles":"P24","particle indices that are no index":"P24","set and setFixed of the Python":"P24",
 "PTC reader numbers":"P28","PDC writer leaves out":"P31","GEO reader keeps the width":"P31","PDA writer leaves out":"P31","BGEO writer refuses":"P31",
 "partinfo without a file name":"P26","partattr reports attributes":"P26","partattr prints every component":"P26",
 "the Python module turns None":"P24","BGEO and GEO writers refuse":"P24","readHeadersVerbose of the Python":"P24","the Python module returns strings":"P24","the Python module releases":"P30",
 "partedit removes attributes":"P33","partedit keeps the indexed":"P33","partedit keeps edits":"P33","partedit adds particles":"P33","partedit's deltas":"P33","partedit stores values":"P33",
}
FINDINGS = []
EXTRA = {}
out = ["# findings: finding: property=PID key=KEY description   (suppresses exactly the violations with that key; * at the end: prefix)",
       "# repaired: fixed: property=PID commit what failed      (suppresses nothing)"]
import json, os
h = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
x = os.path.join(h, "tools", "pids.json")
if os.path.exists(x):
    PID.update(json.load(open(x)))
out += FINDINGS
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    c, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    k = [p for t, p in PID.items() if s.startswith(t) or t in s]
    assert len(k) == 1, (s, k)
    out.append("fixed: property=%s %s %s" % (k[0], c, s))
open(os.path.join(h, "known_findings.txt"), "w").write("\n".join(out) + "\n")
