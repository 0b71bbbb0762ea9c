#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the notes below.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
T={
"C01":("simulated source: seeded read fragmentation, differential against the one-read run","Samples texts and fragmentations; oracle is the same code on one plain read, so a bug that is independent of fragmentation is not its business."),
"C02":("simulated source: seeded read failure at any byte, errors.Is and token-prefix oracle","Samples texts, offsets and error kinds. The complete run of the same bytes is the reference for token prefixes."),
"C03":("simulated transit faults: seeded truncation and corruption, step-bounded runs","Samples damaged texts; work is counted in executed library statements and bounded by a generous polynomial in the text length. Texts of up to 1 MB with one construct repeated or nested are parsed with Go's 32-bit stack limit (250 MB) and used with 1 GB."),
"C04":("simulated stream cuts and continuations, differential between a script and its extensions","Samples scripts, cuts and continuations; reference is the run of the finished statement alone."),
"C05":("simulated source that comes back after its end; seeded histories of later pulls","Samples texts, ends and later calls."),
"C06":("simulated sink: seeded write failure at any byte, exact count/prefix/no-further-call oracle","Samples trees (parsed and built from every node type found in the sources) and failure points."),
"C07":("simulated sinks: seeded failures, panics and kills between repeated renderings","Samples trees and sinks; reference is the rendering as a string and the tree dump before."),
"C08":("seeded scheduler over caller goroutines, statement-level yield points, differential against each session alone","Interleavings at statement granularity; finer ones are C10's. Samples schedules."),
"C09":("seeded scheduler over readers of one tree or token list, differential plus deep immutability check","Interleavings at statement granularity; samples schedules."),
"C10":("seeded scheduler in a race-detecting build whose hand-offs add no happens-before edges","The race detector judges every pair of accesses of each simulated run irrespective of how close they came; runs are sampled. Trusts the Go race detector."),
"C11":("seeded runtime randomness (map order, hash seeds) and forced collections, differential across seeds","Runtime random choices are driven through a patched runtime in the build overlay. Samples operations and seeds."),
"C12":("seeded histories of failing and abandoned sessions, differential between orders in fresh processes","Each session's result is compared between two fresh processes with different histories. Samples histories."),
"C13":("simulated visitor: seeded stops, panics and exits, event-model oracle","The model derives the expected visits from one complete walk of the same tree; every visit returns a visitor of its own."),
"C14":("simulated callbacks: seeded stops, panics, exits and nesting, event-model oracle","The model derives the expected calls from one complete Apply of the same tree."),
"C15":("simulated callbacks: seeded edit histories, list-model oracle","Reference model: plain lists and fields edited by the same operations. Samples trees and edit scripts."),
"C16":("simulated bounded pipe between two scheduled goroutines, seeded schedules, closes, failures and kills","Deadlock is decided by the scheduler (nobody can run), progress by step budgets."),
"C17":("simulated re-entrant callbacks, differential of outer and inner operations against each alone","Samples nestings to depth 3."),
"C18":("simulated failures with process-level observation (descriptors 1 and 2, log, goroutines, exit, shared process state)","Samples sessions and failures of every kind."),
"C19":("seeded overwriting of results at scheduled moments, differential and deep comparison","Tokens are outside the property: keyword values are shared on purpose."),
"C20":("simulated stalling source, seeded stall points and pull mixes, latency bound in characters","Samples texts and stall points."),
"C21":("simulated caller code that panics or exits at a seeded invocation, identity of the panic value","Samples operations, invocations and panic values."),
}
T["C22"]=("seeded histories of edits and failing or aborted operations on one tree, differential against the edits alone and against a fresh copy; edits from inside callbacks against a step-by-step model","Samples trees and histories. A wrong result that does not depend on the history is not its business.")
T["C23"]=("simulated sources and sinks, executed steps, calls and bytes compared between a text and one 8 times as long","Samples about 40 repeatable constructs at two lengths; bounds leave a factor of 1.75 (memory 3.5), so only growth well above linear at these lengths (up to about 1000 parts) is seen.")
T["C24"]=("simulated and standard sources and sinks in seeded states, with failures, panics and exits; their state afterwards and calls of other methods checked","Samples types, states and operations; real files lie in the scratch directory of the check.")
T["C25"]=("simulated clock with jumps and stops, timers, environment, process numbers and calling contexts, differential against the undisturbed run","Clock, timers, environment variables and process numbers are hooked in overlays of the standard library's sources; reading files or the network is not varied.")
pure="A pure function of the input text or tree: no schedule, clock, I/O, fault or interleaving takes part in it, so there is nothing for a simulator to decide; "
NA={
"C30":pure+"it would need input generation with a round-trip oracle, not simulation.",
"C31":pure+"it would need a grammar model as the oracle.",
"C32":pure+"it would need a position model over generated inputs.",
"C33":pure+"it would need a comment-placement model over generated inputs. (That comment maps do not depend on map order, history or sharing is C11, C12 and C09.)",
"C34":pure+"it is a table of characters per dialect.",
"C36":pure+"it is a table lookup.",
"C37":pure+"it would need a value model over generated literals.",
"C38":pure+"it would need the documented grammar as a generator and oracle.",
}
m={"version":1,"setup_cmd":"bash bin/setup.sh","checks":[],"not_applicable":[],
"notes":"No hooks are committed in /repo: yield points are inserted into copies of the current sources by bin/build.sh (go build -overlay), so the shipped code is unchanged. Replay a reported violation with: bash bin/check.sh <id> --replay <file>."}
for p in props:
    i=p["id"]
    if i in T:
        t,n=T[i]
        m["checks"].append({"property":i,"quick_cmd":"bash bin/check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash bin/check.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":"deterministic simulation with fault injection: "+t,"level":"exploration","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA[i]})
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),len(m["not_applicable"]))
