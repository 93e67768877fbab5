import json
T="deterministic simulation: seeded search over thread schedules, CPU models, memory layouts and injected faults, checked against "
D={
"P01":("the same request executed single-threaded","Whole library under a simulated scheduler; every policy and CPU count against the single-threaded execution, bit for bit."),
"P02":("the same request executed alone","Histories of overlapping, nested, shared and repeated requests; every answer compared bit for bit with the request executed alone."),
"P03":("guard pages, heap red zones, padding patterns and an execution on different memory","Buffers directly before/after unmapped pages, read-only sources, stale and guarded heap; visible pixels compared with an execution on other memory."),
"P04":("the well-formedness rule of the request","Histories mixing twenty kinds of malformed requests with valid ones, including concurrent ones."),
"P05":("an f64 model of separable resampling","8-bit formats."),
"P06":("an f64 model of separable resampling","8 to 16 bits in 16-bit storage."),
"P07":("an f64 model of separable resampling","f32 and f16."),
"P08":("an f64 model of separable resampling","AR30/RA30, both byte orders."),
"P09":("an f64 model of associate-resample-dissociate","Four-channel requests with and without alpha handling."),
"P10":("convert-resample-convert with the conversions of colorutils-rs and an f64 resampler","All ten colour-space scalers; colorutils-rs is trusted."),
"P11":("the exact source pixels","Nearest and same-size requests, bit-exact."),
"P12":("the same request executed single-threaded","pthread_create refused at chosen attempts or always."),
"P13":("the same request executed alone, and leak/leftover accounting","k-th allocation of a history fails and unwinds."),
"P14":("step bounds, thread accounting and heap accounting","Deadlock, livelock, thread-count, leftover-thread and memory-growth invariants in every execution."),
"P15":("the f64 model and the instruction sets of the functions entered","Eleven simulated CPU models besides the native one."),
"P16":("bounds on work and peak memory per pixel and tap, and the same request on pictures twice as long","Basic blocks executed and bytes held/asked for, counted by the simulator, so exact and repeatable."),
}
checks=[]
for p,(o,n) in D.items():
    checks.append({"property":p,"quick_cmd":f"tools/check.sh {p} quick","thorough_cmd":f"tools/check.sh {p} thorough",
      "evidence_file":f"evidence/{p}.json","technique":T+o,"level":"exploration",
      "level_note":n+" Seeded sampling: a clean batch is evidence, not proof; x86-64 only, sequentially consistent interleavings at basic-block granularity."})
json.dump({"version":1,"setup_cmd":"tools/build.sh","checks":checks,"not_applicable":[]},open("/verif/MANIFEST.json","w"),indent=1)
