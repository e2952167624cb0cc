"""Writes /verif/MANIFEST.json from the list below."""
import json
SIM = "runtime monitoring: random and hostile histories of the real contract wasm under an instrumented Gear runtime, decided online by a reference-model monitor"
NOTE = "Held on the histories executed (counts and distinct cases in the evidence). Trusts the runtime's model of Gear's message semantics, the SCALE codec and the exact-arithmetic reference in monitor/. "
C = {}
def sim(i, note, technique=SIM): C[i] = ("contract", technique, NOTE + note)
sim("C01", "Token contracts are honest; the exact liabilities are recomputed after every call and a randomly ordered close-out ends every history.")
sim("C02", "The runtime plays the token contracts: every kind of answer, order, repetition, wake-up delay, timeout and caller out-of-gas point; balances are compared after every single execution.")
sim("C03", "Every swap and route is preceded by its quote; queries are also sent as committed messages.")
sim("C04", "Amounts and prices are read from balances and pool queries, not only from the reply.")
sim("C05", "Bounds come from exact rational curve amounts over the tick records read before the swap; rounding slack as stated in DESIGN.md.")
sim("C06", "Recomputed from all positions after every call.")
sim("C07", "Recomputed from all positions after every call.")
sim("C08", "Tick prices are the contract's own, learnt from a probe instance.")
sim("C09", "Fees are attributed from pool growth between crossings and compared with what positions can collect.")
sim("C10", "Share bounds from the exact curve.")
sim("C11", "Every caller kind tries every operation.")
sim("C12", "Position lists are compared with a model after every call.")
sim("C13", "Pool and tier records are compared with a model after every call.")
sim("C14", "Each sampled call is also cut off at a random host call; must-fail arguments are judged by a model.")
sim("C15", "Expectations are aimed at the exact border of the tolerance.")
sim("C16", "Exact curve amounts; the open-and-close round trip runs on a branch of the state.")
sim("C22", "Every event is decoded and compared with the observed effect.")
sim("C23", "Pages of random size and offset are compared with the full listing.")
sim("C24", "Block times are chosen by the runtime.")
sim("C25", "The runtime's native ledger is the reference.")
sim("C26", "Every message and query also runs on a build with overflow checks; both must agree wherever the deployed build succeeds.",
    "runtime monitoring: the deployed wasm in lockstep with a build instrumented with overflow checks (arithmetic sanitizer), under extreme arguments")
sim("C27", "The whole observable state is compared before and after every call.")
sim("C28", "Balances are compared before and after every call.")
sim("C29", "On branches of the state every owner leaves; every history ends with everybody leaving in random order.")
sim("C32", "Whether a request is valid is judged from the state read before it, with exact curve amounts; requests near a limit within rounding slack carry no expectation.")
sim("C36", "The token is compiled from its own source with and without its feature; its unavailable dependency vft-service is replaced by a stand-in, which the same monitor found indistinguishable from the shipped artefact's.",
    "runtime monitoring: random histories of the real token wasm, alone and together with the exchange wasm, judged online by a reference model of roles, supply, balances and events")
C["C36"] = ("contract token",) + C["C36"][1:]
MATH = "runtime monitoring: the repository's own arithmetic and storage crates executed natively on boundary-aimed inputs, every result judged by an exact-arithmetic monitor"
MN = "Held on the calls made (counts by kind in the evidence). Trusts the big-integer reference in mathcheck/. "
def math(i, note): C[i] = ("math", MATH, MN + note)
math("C17", "All ticks are visited; for each the prices next to its own are converted back, for all spacings on a sample.")
math("C18", "Exact in the declared direction, or an error; an error is accepted only when a documented intermediate does not fit.")
math("C19", "Reference is an ordered set; maps aim at chunk borders and range ends.")
math("C21", "The estimate is deposited through the repository's own amount function and through exact arithmetic.")
math("C30", "Exact rationals; token-X amounts use the declared 24-digit intermediate denominators as bounds.")
math("C31", "The same native history runs in three worlds with different counter origins, plus closed-form checks.")
math("C33", "Both copies run natively on the same arguments; the SDK crate runs in its own process (its features exclude the contract's).",)
C["C33"] = ("math sdk", "runtime monitoring: differential execution of the SDK's crate and the contract's crates on the same boundary-aimed arguments", C["C33"][2])
sim("C20", "Every swap request and many more are quoted by the contract and simulated by the SDK's crate from queried state.",
    "runtime monitoring: the SDK's crate in lockstep with the deployed wasm over random histories, answers compared online")
C["C20"] = ("contract sdk",) + C["C20"][1:]
TS = "Held on the client calls made (counts by kind in the evidence). Trusts the stand-in for the node and the sails-js/gear-js packages (absent here), the glue that loads the SDK's wasm, and the runtime in monitor/. "
C["C34"] = ("contract ts", "runtime monitoring: the real TypeScript client driven over the real contract wasm through a recording stand-in for the node; every message, answer and event judged online", TS + "Everything the stand-in records is compared with the contract's state and replies.")
C["C35"] = ("contract sdk ts", "runtime monitoring: differential execution of the TypeScript helpers and the SDK's wasm against the contract, the SDK's native code and exact arithmetic", TS + "Declared rounding and documented approximations are allowed for.")
NA = []
m = {"version": 1, "setup_cmd": "./build.sh " + " ".join(sorted({w for v in C.values() for w in v[0].split()})),
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
                 "technique": t, "level": "exploration", "level_note": n} for i, (_, t, n) in sorted(C.items())],
     "not_applicable": NA,
     "notes": "No hooks: the checks build the contract as deployed and observe it only through its message interface; arithmetic crates are linked as they are."}
todo = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for i in todo:
    if i not in C: m["not_applicable"].append({"property": i, "reason": "the check for it is still being built"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), [x["property"] for x in m["not_applicable"]])
