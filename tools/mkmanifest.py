#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
MON="runtime monitoring: reference-model oracle over every step of randomized client sessions against the real stub"
T={p['id']:MON for p in props}
T.update({
 'P01':"runtime monitoring: online wire-grammar monitor over everything transmitted in randomized sessions",
 'P02':"runtime monitoring: wire decoder monitor plus differential runs with run-length encoding on and off",
 'P03':"runtime monitoring: crash/hang/UB watching (debug assertions, overflow checks, Miri) under hostile byte streams",
 'P04':"runtime monitoring: target-call and ack monitor under injected packet corruption",
 'P05':"runtime monitoring: ack and flush monitor over randomized sessions",
 'P06':"runtime monitoring: differential transcripts over packet-buffer variants and ack noise",
 'P10':"runtime monitoring: round-trip and layout oracle over every shipped architecture",
 'P18':"runtime monitoring with fault injection at every target call and connection operation",
 'P27':"runtime monitoring: differential runs of the blocking driver against a reference loop",
 'P28':"runtime monitoring: differential transcripts through trait-object wrappers",
 'P30':"runtime monitoring: set-up oracle over builder configurations and connection operation log",
 'P31':"runtime monitoring: byte-stream conservation monitor over real sockets",
 'P33':"runtime monitoring: stock GDB as client over real sockets, its output and the target's state compared with a shadow machine",
 'P32':"runtime monitoring: differential transcripts between feature builds of the library",
})
import sys
READY=open(root+'/tools/ready.txt').read().split()
NOTE="Held on the sessions explored (counts in the evidence file), no more: randomized exploration, not exhaustive. Trusts the mock target, the reference model in harness/src and the compiler."
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in READY:
        checks.append(dict(property=i,quick_cmd=f"bash harness/run.sh {i} quick",thorough_cmd=f"bash harness/run.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=T[i],level="fault_enumeration" if i=="P18" else "exploration",level_note=NOTE))
    else:
        na.append(dict(property=i,reason="check under construction"))
m=dict(version=1,setup_cmd="bash harness/setup.sh",hooks=dict(guard="none",enable="no hooks needed: everything is observed through public traits",source_commits=[]),checks=checks,not_applicable=na,
 notes="Every check builds harness/ against /repo's working tree (cargo, offline).")
open(root+'/MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
print(len(checks),len(na))
