import json
S="stateless model checking of the implementation (systematic schedule enumeration under a controlled scheduler, deviation bound)"
I="bounded exhaustive enumeration of executions of the implementation against an independent reference"
F="exhaustive enumeration of transport fault points on the implementation"
M="explicit-state model checking; every model transition replayed on the implementation"
T={
"C01":(I,"exploration","every message type over boundary alphabets of every field, against an independent encoder; values between the boundaries are assumed to behave like them"),
"C02":(I,"exploration","every truncation, length perturbation and all short strings; longer arbitrary strings only as perturbations of valid ones"),
"C03":(I,"exploration","all request sequences to depth 3 (thorough 4) on the real server in a synctest bubble, plus boundary values; the reference encoder is trusted"),
"C04":(I,"exploration","all segmentations of short streams, all one to three cuts of longer ones"),
"C05":(F,"fault_enumeration","every byte position of five conversations x kinds of end, every damaged body; an error delivered together with the last bytes counts as after them"),
"C06":(I,"exploration","all early requests and sequences up to the depth, two connections interleaved at request granularity"),
"C07":(S,"exploration","schedules with up to 1 (thorough 2) deviations from the default schedule at every shared access of the instrumented server and ufs; source instrumentation happens at build time and is trusted not to change behaviour"),
"C08":(S,"exploration","schedules with up to 2 (thorough 3) deviations for two or three callers; instrumentation trusted, Go memory model effects below sequential consistency are not explored"),
"C09":(S,"exploration","as C08, with 1 to 3 tags left"),
"C10":(F+", with schedule enumeration","fault_enumeration","every byte position x kinds of failure x schedules with a small deviation bound"),
"C11":(I+", with schedule enumeration","exploration","all wrong types, damaged bodies and stray tags of an alphabet; interleavings with small deviation bound"),
"C12":(I,"exploration","all segmentations of short reply streams, all one and two cuts of longer ones"),
"C13":(S,"exploration","as C08"),
"C14":(S+" and of accept outcomes in virtual time","exploration","all accept outcome sequences to the depth; schedules with small deviation bound"),
"C15":(I+" (two-world comparison)","exploration","all scripts of an alphabet of escaping names to the depth; run as an unprivileged user in a scratch directory; host symlinks are not claimed"),
"C16":(M,"model_checking","model of identifiers and a five-file tree to depth 4/6 (thorough 5/9); every model transition replayed"),
"C17":(M,"model_checking","byte-array model to depth 6 (thorough 8), plus offset and size boundaries"),
"C18":(I,"exploration","all read scripts to depth 4/5 (thorough 5-7) on seven directories, large directories with periodic counts"),
"C19":(I,"exploration","all permission bits, boundary lengths and times; all histories of 3 (thorough 4) changes out of 16"),
"C20":(I,"exploration","full product of attribute alphabets on seven files, all sequences of 3 (thorough 4); one known finding"),
"C21":(M,"model_checking","model to depth 5 (thorough 7) plus all permission bits"),
"C22":(M,"model_checking","model to depth 5 (thorough 7), descriptor table compared in every state"),
"C23":(I,"exploration","every operation, outcome and boundary value through the wrapper; all three-request conversations of an alphabet with ufs -debug"),
"C24":(I+" on regenerated code","exploration","the stubs produced by the generator pass the cases of C01, C02, C03, C05 and the calls of C08 and C11"),
"C25":(I,"exploration","message sizes, counts, offsets and file sizes of boundary alphabets"),
"C26":(S+", "+I+", with tracing","exploration","the cases of C03-C08, C10-C12 and C14 again with a formatting trace function; quick: client deviation bounds one lower; trace functions that block or call back into the client are not claimed"),
"C27":(S+", with happens-before race detection on each","exploration","the schedules of C07-C11, C13 and C14 on race-instrumented code; quick: deviation bounds one lower; assumes transports order their own operations"),
"C28":(S+", judged by linearizability","exploration","client and ufs together: all pairs of 40 calls with 1 (thorough 2) deviations, programs of two and three callers with 1-2 (thorough 2-3); the sequential outcomes are those of the same code; file times and QID numbers are not compared"),
}
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: instrumentation is generated from the working tree at check time and used through go build overlays. FINDINGS.txt holds the known finding and the repaired defects."}
for k,(t,l,n) in T.items():
    m["checks"].append({"property":k,"quick_cmd":"./check "+k,"thorough_cmd":"VERIF_TIER=thorough ./check "+k,"technique":t,"level":l,"level_note":n})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
