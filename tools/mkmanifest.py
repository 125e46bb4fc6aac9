#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json
T={
'F':"runtime monitoring: differential oracle over recorded searches of the real engines under generated update histories",
'T':"runtime monitoring: independent encoder/decoder as oracle over generated inputs to the real code",
'E':"runtime monitoring: the real binary under a stand-in reader/store and hostile peers, with event-log and conservation checkers",
}
S={
'F06':"runtime monitoring: save/restore differential against the engine's continued execution and an oracle",
'F07':"runtime monitoring: fault injection on saved bytes (truncation, mutation) with crash, hang and memory watchdogs",
'F09':"runtime monitoring: hostile-input fuzzing with crash watchdog and bit oracle",
'F10':"runtime monitoring: snapshot comparison of caller-owned state around every operation",
'F16':"runtime monitoring: memory, dump and saved-size watermarks of the real engines under long update churn, against an engine built anew",
'F17':"runtime monitoring: guarded and reused read buffers, kept and overwritten answers, differential oracle on every search",
'F18':"runtime monitoring: the dumps of the real engines read back and compared with a model along update histories",
'F19':"runtime monitoring: the whole path from files and framed reports to collected identities against a model, on drawn and shipped sets",
'F20':"runtime monitoring: engines with histories of their own run at once and interleaved, under the race detector, each judged by its own oracle",
'R04':"runtime monitoring: held-back construction, concurrent updaters and a late owner, with a once-per-event checker on the management channel",
'E05':"runtime monitoring: fault injection on the reader's connection, the store, files and addresses of the real binaries, their end judged",
'R01':"Go race detector on the real factory, engines and middleware binary under concurrent workloads",
'R02':"runtime monitoring: gated engine generation schedules, online trace checker on the management channel and every search",
'R03':"runtime monitoring: conservation (ledger) checker over recorded interval reports",
'R05':"runtime monitoring: timed engines; interval reports judged by bounds on the time each search took, selections by an online rule over the reported figures",
'M01':"runtime monitoring: exactly-once, ordered event-log checker on a stand-in time-series store",
'T08':"Go race detector and known-result oracle over concurrent calls in drawn orders",
'G02':"runtime monitoring: the real generator (also under the race detector, and on one processor) with its files decoded by an independent implementation",
'G01':"runtime monitoring: the real binary on generated files, its output decoded and compared record by record",
}
N={
'F':"Searches of the real engines judged by an independent matcher (harness/oracle) over seeded, randomly drawn subscription sets, tags and update histories; assurance is for the histories explored, counted in the evidence.",
'T':"Real encode, decode and pattern functions judged by an independent implementation of the tag standards (harness/oracle), over drawn and boundary field values; assurance is for the values explored.",
'R':"Real goroutines, channels and timers; schedules vary by gates, delays and load, and are not enumerated.",
'M':"Real manager and client library writing to a stand-in store over loopback HTTP; assurance is for the message sequences explored.",
'E':"The binary built from the working tree runs under supervision; a verdict of non-progress is given only when the process is idle, a slow machine gives no verdict. Hostile traffic is drawn from 16 kinds and not exhaustive.",
'G':"The binary built from the working tree runs on drawn files; what is known to fail is in KNOWN_FINDINGS.",
}
checks=[]
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    checks.append({"property":i,"quick_cmd":f"bash run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash run.sh {i}","technique":S.get(i) or T[i[0]],
      "level":"exploration","level_note":N[i[0]],"evidence_file":f"evidence/{i}.json"})
m={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"none: no hook in /repo; the one added file (overlay/gobtags_hook.go) comes in by go build -overlay","enable":"go build -overlay, done by run.sh","source_commits":[]},
 "checks":checks,"not_applicable":[],
 "notes":"run.sh ID [-case N] builds from /repo's working tree and runs one check; KNOWN_FINDINGS lists unrepaired findings; DESIGN.md explains."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
