D='exhaustive bounded enumeration of programs, executed on the real code and compared with a reference engine (explicit-state differential exploration)'
N='Every program of the stated finite space is executed on the real interpreter; trusts the V8 reference where ECMAScript fixes the result, and the listed exclusions.'
for i in ['C01','C02','C03','C04']: tech[i]=(D,'exploration',N)
tech['C05']=(D,'exploration',N)
tech['C06']=(D,'exploration',N)
for i in ['C07','C08']: tech[i]=(D,'exploration',N)
tech['C09']=(D,'exploration',N)
for i in ['C10','C11','C12','C13','C14']: tech[i]=(D,'exploration',N)
for i in ['C15','C16','C17','C18','C19','C20','C21','C24','C27','C34']: tech[i]=(D,'exploration',N)
tech['C22']=('exhaustive forced-collection schedule exploration of the implementation (a collection at every k-th block allocation, freed blocks poisoned, differential against the uncollected run)','exploration','Every program of the corpus is run under every collection schedule of the tier on the real collector; the oracle is the same program without forced collections, plus block accounting at shutdown.')
tech['C23']=('exhaustive enumeration of bounded heap histories with collections, executed on the real collector and compared with an explicit-state reachability model','exploration','The model (roots, links, ephemerons, kept objects, registrations) is written from ECMAScript; unreachable objects that no collection has been asked for yet are not judged; the environment of the last call and the last thrown value may be retained.')
tech['C33']=('exhaustive enumeration of command lines x programs, each run as a process and compared with a model of the documented behaviour','exploration','Order of jobs started by the program and by main is only checked within each; diagnostics texts are only checked for the message of the error.')
tech['C26']=('exhaustive enumeration of bounded job programs, drain points and embedding-call histories, executed on the real runtime and compared with an explicit queue model','exploration','The model is a FIFO queue with a drain operation; the balance of value stack, context stack and realm is asserted in the harness after every drain and evaluation.')
tech['C32']=('exhaustive differential enumeration: bounded programs on every build configuration and repeated in one runtime, and all bounded histories of binding changes with warm accesses, on the real code','exploration','Oracle: the default configuration or the first execution, and node for binding histories. Full Unicode data is only promised for the ICU converter, so such programs are not compared on the others; a configuration that does not build is reported in the evidence and not compared.')
tech['C28']=('explicit-state exploration of the real data structures: every reachable state up to a bound, every operation from each, compared with the abstract data type','exploration','The harness stores and restores the states of the real structures (tree links and colours, hash chains, list links), so no behaviour is abstracted; buffers, vectors and the value stack are explored by all operation sequences up to a depth.')
tech['C25']=('stateless model checking of the implementation: preemption-bounded exhaustive schedules under a controlled scheduler (scheduling point at every shared access, lock and condition variable; time-outs and spurious wake-ups are explored choices), outcomes compared with an explicit-state model','exploration','The library is compiled with thread-sanitizer instrumentation and linked against our own run-time, so the scheduler controls the real code; memory is sequentially consistent per access; private heap accesses are not scheduling points.')
tech['C29']=('exhaustive enumeration of bounded call histories on files, directories and encodings, executed on the real command and compared with an explicit-state model of C streams and POSIX calls','exploration','Runs as an unprivileged user in a scratch directory; outcomes that C or POSIX leaves open are not judged; the files are read back from outside the interpreter.')
tech['C31']=('exhaustive enumeration of bounded schemas x documents, pointers x documents and command lines x option tables, executed on the real modules and compared with executable specification models','exploration','The models are written from RFC 6901, JSON Schema 2020-12 and the option descriptions; the exclusions are listed in DESIGN.md.')
