#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'C01':("postcondition monitor on instrumented genes (comparison step budget) over exhaustive small and random permutations","Every gene exactly once, no panic, finite work, observed on every pair of permutations up to length 5 or so, on random pairs to length hundreds, hostile generators and gene types."),
'C02':("panic monitor over all operators and length pairs","All operators and strategies with parents of different lengths, empty ones included."),
'C03':("executable reference model compared with every observed offspring","Reference implementations from the definitions; exhaustive for small lengths, random beyond."),
'C04':("step-by-step checker of the recorded offspring against the successor and neighbour rules","The offspring is accepted step by step; ties in ERX may go either way."),
'C05':("reference sets compared with the queries, recorded partition-selector calls checked step by step","Partition selector is instrumented; chains and order are checked for small lengths exhaustively and random ones beyond."),
'C06':("effect monitor: before/after genomes classified by the allowed edits","Exhaustive small genomes times random draws, hostile generators, duplicates of genes."),
'C07':("statistical monitor (goodness of fit at error rates below 1e-9) and bounds monitor","Frequencies of all outcomes for small n; false-alarm rate below 1e-9 per test, effects smaller than the resolution of the sample are not seen."),
'C08':("postcondition monitor under hostile fitness values and generators","Index, reference, bottom exclusion, no panic."),
'C09':("statistical monitor of selection frequencies against exact distributions","Frequencies against the closed forms, false-alarm rate below 1e-9 per test; effects below the resolution of the sample are not seen."),
'C10':("trace checker over logged selection attempts of an instrumented mechanism","Scripted mechanism: every attempt is logged and the result compared."),
'C11':("structural invariant monitor at construction, conversion and replacement","Multiset oracle over individuals with ids."),
'C12':("history checker over sequences of replacements with a reference counter","Generation, stagnation, handed-back members after every replacement."),
'C13':("differential monitor against exact summaries (compensated arithmetic)","Order and offset varied; rounding bounds are stated in the harness."),
'C14':("history checker over recorded generations with member ids","Elites of each recorded generation are looked up in the next."),
'C15':("conservation checker over the event log: bred = missing, all enter","Counts and ids of every breeding of every generation."),
'C16':("provenance monitor: every member shown carries the stamp of its last evaluation","Individuals carry the genome hash they were evaluated with."),
'C17':("history checker: the returned individual against all populations shown","All populations shown are recorded."),
'C18':("trace checker over callback logs of every breeding plus frequency monitors of the decisions","Each breeding is reconstructed from its events; rates by binomial tests at error rates below 1e-9."),
'C19':("reference model of the adaptive rates compared with the rates observed in breeding","Rates recomputed from the recorded fitness of the first and current population."),
'C20':("monitor of rates and selector calls reaching breeding, frequency monitor of the configured strategy, reuse of engines","Selector instances are compared by behaviour; runs on reused engines against fresh ones."),
'C21':("panic monitor over the boundary values of every parameter","Boundary floats, NaN, infinities of all parameters and selector setters."),
'C22':("protocol automaton over the global event log","Every callback has a sequence number; the automaton accepts exactly the documented order."),
'C23':("exclusivity and stream-continuity monitor on instrumented generators, ThreadSanitizer, Miri (thorough)","Busy flags and stream positions per generator; TSan on code rebuilt with std; Miri on several schedules. Pool-internal reports of rayon/crossbeam are filtered (fences not modelled by TSan)."),
'C24':("fault injection at every callback kind with drop accounting","A panic at the k-th call of each callback kind, including cloning, comparing, drawing; runs refused in between; live counters must return to zero and the engine must run again as a fresh one."),
'C25':("differential repetition with seeded generators and generator-state comparison","Every operation twice with equal states; whole single-thread runs twice."),
'C26':("conservation monitor over constructor, clone and mutation events","Counts and ids of created individuals."),
'C27':("differential monitor against exact rational arithmetic","Integer interpolation against 128-bit/exact arithmetic, monotone ratio sequences."),
'C28':("differential monitor of comparison entry points","All pairs over hostile finite fitness values."),
'C29':("postcondition and statistical monitors on OneMax","Bit counts, edits, runs; bit frequencies at error rates below 1e-9."),
'C30':("statistical monitor of the strategies' random choices (goodness of fit at error rates below 1e-9)","Exact distribution of the offspring for small parents, of first gene, point and chain order for larger ones; effects below the resolution of the sample are not seen."),
'C32':("consistency monitor: what overriding callbacks were asked, returned and left, against what the engine evaluates, breeds and shows","Overrides of every method of model, selector, individual validity and algorithm, scripted to differ from the defaults."),
'C33':("differential monitor of the same deterministic evolution under different numbers of worker threads","Callbacks numbered instead of random; fitness without ties, as the order among equals is free; statistics compared to 1e-9."),
'C34':("differential monitor of whole traces of engines built in five ways","One thread, seeded generators."),
'C35':("differential and deadlock monitor of evolutions nested in callbacks of evolutions","Inner and outer runs against the same runs alone, up to two levels deep; the watchdog reports threads blocked for good or endless work."),
'C36':("differential and deadlock monitor of calls made at once from several threads and from inside each other","Genes, individuals, generators and partition selectors that run other calls in the middle, two levels deep; results against the same calls alone."),
'C37':("monitor of the thread and pool of every callback, and of how many are in progress at once","Threads are marked by their pool when they start; sleeping callbacks show whether all threads of the pool take part, retried with longer sleeps before it counts."),
'C38':("monitor of output (captured) and system calls (strace) of the workloads of all other monitors","Calls between the marks around the library's work; without a working strace only the output is looked at."),
'C39':("metamorphic monitor: the same call on renamed genes, other genomes, other individuals","Results and generator states of each pair of calls; ERX left out."),
'C40':("end-to-end monitor: whole runs on problems with known optimum","Setups for which 50000 generations are far more than ever needed (all observed runs took less than 2000)."),
'C41':("cost monitor: counted gene operations, clones, comparisons, fitness queries and live individuals against bounds","Bounds are many times what is needed; only a change of order, or needless copying of whole populations, is seen. Counts, not time."),
'C31':("resource monitor: live individuals and live heap (counting allocator) at every progress call","Thousands of generations or hundreds of runs per case; growth below a few bytes per generation is not seen."),
}
checks=[]
for p in props:
    t,n=T[p['id']]
    checks.append(dict(property=p['id'],quick_cmd=f"./check.py {p['id']} quick",thorough_cmd=f"./check.py {p['id']} thorough",
      technique="runtime monitoring: "+t, level="fault_enumeration" if p['id']=='C24' else "exploration",
      level_note=n+" Holds on the executions observed; trusts the harness oracle, the compiler and third-party crates."))
json.dump(dict(version=1,setup_cmd="./check.py --build",checks=checks,not_applicable=[],
 notes="No hooks in /repo: every monitor is a user-implemented trait of the library. Checks need no privileges and touch nothing outside /verif/target, /verif/evidence, /verif/replays."),open('/verif/MANIFEST.json','w'),indent=1)
