"""Writes MANIFEST.json and known_findings.txt's claims from one table."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
PURE="a pure function of its input: one thread, no time, no I/O, no randomness, no caller-visible intermediate state; no schedule or fault can change the answer, so a simulator has nothing to decide"
SEEDED="deterministic simulation: "
T={
'C01':("seeded crash points inside Groebner basis computations, ideals compared through a reference","every callback into coefficient arithmetic and monomial order is a potential crash point; the surviving list's ideal is compared with the original's by an independent modular reference (exact for finite fields; three large primes for rationals). Assumes the reference is right; lists are small"),
'C02':("seeded interruption and resumption of Groebner basis computations, checked for progress and against a reference","after any seeded sequence of interruptions the clean run must finish in a step budget and give the reference's reduced basis. Lists are small; rationals are compared modulo three large primes"),
'C03':("same calls under seeded hash keys, clock, heap layout, environment and thread, compared with a pristine process","every source of ambient state the process can read is behind the simulator; results are compared exactly. Operands are small"),
'C04':("seeded thread schedules with preemption at every edge, load and store, compared with each call alone","one thread runs at a time, so weak-memory effects are out of reach; schedules are sampled, biased to accesses of static memory"),
'C05':("seeded histories of finished and unwound calls in one process, compared with a pristine process","histories up to 650 calls; comparison is exact"),
'C06':("operands re-read at seeded instants inside calls and after unwinding","audits at sampled callbacks and scheduler steps; comparison is exact"),
'C07':("seeded edit histories cut short at seeded callbacks, compared entry by entry with a model","matrices up to 10x10, exact and floating-point fields; the model is a plain table"),
'C08':("sinks that fail, panic or recover at a seeded call or byte, with later and concurrent renderings","every failure point of small renderings is reachable; renderings are compared with those of a pristine process"),
'C09':("threads stopped for good at seeded points, bounded progress demanded of the others","stops are sampled, biased to accesses of static memory and synchronisation"),
'C10':("library calls nested inside callbacks of other calls at seeded points, compared with each call alone","nesting up to six deep at sampled callbacks"),
'C11':("call histories repeated with unwinding at seeded points, live heap bytes compared between rounds","a leak shows if it grows with repetition; up to 1024 rounds"),
'C12':("allocations failing at seeded points, each in a process of its own","only an abort through the allocation error handler or the fault-free result is accepted"),
'C13':("the real binary with seeded short, interrupted and failing writes on standard output","the shipped main is run unmodified behind a write shim; the program takes no input"),
'C14':("seeded pivot preferences and schedules over exact fields, checked against a reference elimination","preferences are total preorders with zero lowest; matrices up to 10x10"),
'C15':("seeded interleaving of enumeration steps over threads and calls with abandonment, compared with solo enumeration","enumerations up to a few thousand items, and starts of ones too long to finish; order fixed by a solo run, counts and distinctness by a model"),
'C16':("user-supplied code panicking at seeded points, once or for good, the panic followed to the caller","every callback is a potential panic point; calls are compared by payload identity, nesting up to six deep. Operands are small"),
'C17':("calls made at seeded odd moments: unwinding, thread-local destruction, exit handlers, forked children of busy processes","moments are sampled; comparison with a pristine process is exact. Operands are small"),
'C18':("seeded wrong answers from user-supplied code, with other calls before, after, around and beside","which answers are wrong, and how, is sampled; stray writes are seen if they hit the guard bytes of a block, memory that is free, or an operand"),
'C19':("very large operands on threads whose stack is all but exhausted, with seeded unwinding","operands of a few thousand entries, terms or exponents; recursion too shallow to use 16 KiB on these goes unseen"),
}
T['C32']=("requests to the operating system refused at seeded points, calls compared with undisturbed ones","refusable are threads, entropy, files, reads, writes and sleeps; today's library asks for entropy only")
T['C33']=("process and thread state compared before, during and after calls unwound at seeded points","state that the kernel or libc shows is compared: see the statement's list; moments inside a call are sampled")
checks=[];na=[]
import subprocess
have=open('/verif/claimed.txt').read().split()
for p in props:
    i=p['id']
    if i in have:
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":SEEDED+t,"level":"exploration","level_note":"Seeded search, not exhaustive: "+n+"."})
    elif i in T:
        na.append({"property":i,"reason":"check under construction"})
    else:
        na.append({"property":i,"reason":PURE})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: the library is compiled with a compiler-inserted callback at every edge, load and store (tools/rustc-sim.sh), libc's entropy, clock, futex, thread and environment calls are defined by the simulator's executable, and coefficient types, orders, sinks and iterators are the simulator's implementations of the library's own traits."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
