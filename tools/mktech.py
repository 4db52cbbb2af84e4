import json
B="stateless model checking of the implementation: "
ref=B+"exhaustive enumeration of bounded schemas, documents and presentations against an independent reference model"
N="Every execution of the real library within the stated bounds is enumerated by a deviation-bounded depth-first search and compared with an independent reference model."
t={}
def p(i,tech,note=N): t[i]={"technique":tech,"note":note}
for i in ("C01","C02","C03","C04","C05","C06","C08","C09","C10"): p(i,ref)
p("C07",B+"exhaustive enumeration of anchor/alias assignments over documents against a reference that expands aliases")
p("C11",B+"exhaustive enumeration of documents and of the vetoing callback, against the reference's call sequence")
for i in ("C12","C13","C14"): p(i,B+"exhaustive enumeration of bounded schemas, data, styles and configurations against a reference document and reload")
p("C15",B+"exhaustive enumeration of bounded schemas, data and orders of copy, overwrite and free")
p("C16",B+"exhaustive enumeration of bounded operations over complete and broken inputs with a tracking allocator","Every execution within the bounds runs the real library on an allocator that knows every live block, with address sanitizer.")
p("C17",B+"exhaustive enumeration of allocation failure points (single and from-then-on) of bounded operations","Every memory request of every enumerated operation fails once alone and once with all later ones; outcome, outputs and heap are checked on each execution.")
p("C18",B+"exhaustive enumeration of read splits and read/open failures of a scripted file","Every split and failure of the scripted file within the bounds is run and compared with the load from memory.")
p("C19",B+"exhaustive enumeration of write, flush, open and close failure points of a scripted file","Every failure point of the scripted file within the bounds is run; success must mean the file accepted every byte.")
p("C20",B+"exhaustive enumeration of operation histories up to a depth","Every history within the bounds is run from the library's initial state, each outcome compared with the call's outcome alone.")
p("C21",B+"exhaustive enumeration of thread schedules up to a preemption bound under a controlled scheduler with race detection, and of nested calls in every callback","Every schedule within the preemption bound is run on the real library compiled with thread instrumentation; conflicting accesses are detected by vector clocks.")
p("C22",B+"exhaustive enumeration of bounded operations at every log level, related to the most verbose run")
p("C23",B+"exhaustive enumeration of fault positions in bounded inputs against an independently computed path and position")
p("C24",B+"exhaustive enumeration of token strings, line layouts and mutations of texts against a reference on an independent parse")
p("C25",B+"exhaustive enumeration of argument subsets, schema malformations and error numbers")
p("C26",B+"exhaustive enumeration of streams and encodings, related to the load of their first document alone")
p("C27",B+"exhaustive enumeration of generated C programs (public macros x member kinds x layouts) and their values, read through the compiler's own member accesses","Every generated structure and value is loaded, saved, copied and freed by the real library; members are compared by compiled C expressions.")
json.dump(t,open('/verif/tools/technique.json','w'),indent=1)
