import json,sys
sys.path.insert(0,'/verif')
import check
ORACLE="generated workloads against the real library; every answer compared with an independent evaluator"
T={
"P18":"AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over generated workloads",
"P19":"LeakSanitizer after every generated lifecycle",
"P20":"ThreadSanitizer and answer monitoring of parallel queries",
"P21":"monitor walking the live index after every insertion",
"P22":"online monitor of report counters, with workloads of known effectiveness",
"P23":"answer monitoring over several trees, ThreadSanitizer for threads with trees of their own",
}
N="Held on the generated executions reported in the evidence; assumes the evaluator in gen/model.h states the documented meaning. "
S={
"P18":"Reaches what the workloads drive: red-zone and initialisation tools, so not a proof of memory safety. Events are well formed. UBSan's nonnull-attribute and pointer-overflow checks are off (qsort of nothing).",
"P19":"Leaks are found by reachability at the end of each case; assumes LeakSanitizer sees all allocations (it intercepts malloc).",
"P20":"Races on any pair of accesses the workload makes unordered are found independently of their timing; schedules are those the machine produces.",
"P21":"Compiled against the headers of the tree, so it follows the current structures; walks after every insertion.",
"P22":"Thresholds of the effectiveness clause have a wide margin over what the index does.",
}
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: the structure walk of P21 lives in player/verify.c and reads the library's own headers."}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)["id"]
    b=sorted({c["variant"] for c in check.CAMPAIGNS[p]})
    m["checks"].append({"property":p,"quick_cmd":"python3 check.py %s quick"%p,"thorough_cmd":"python3 check.py %s thorough"%p,
      "technique":"runtime monitoring: "+T.get(p,ORACLE)+" (builds: %s)"%", ".join(b),
      "level":"exploration","level_note":N+S.get(p,"")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
