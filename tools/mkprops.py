import json
def M(*a): return [{"name":n,"where":w} for n,w in a]
ALLM=["pyflp/channel.py","pyflp/mixer.py","pyflp/arrangement.py","pyflp/pattern.py","pyflp/plugin.py","pyflp/project.py","pyflp/timemarker.py"]
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":mech,"hook_needed":None}
    if state: a["state"]=state
    a["observe_at"]=obs or ["pyflp.parse","pyflp.save","the saved file's bytes","property reads of the object model"]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A storable edit is accepted, reads back, and survives save, crash and reopen",
 "Assigning a value which fits a stored property of an open project succeeds, and every later read of that property says that value (rounded only to the precision the format stores). Once a save has returned, a new process opening that file reads exactly the values in force when the save was called, whatever was edited afterwards, whatever the disk did meanwhile and wherever later saves to other files crashed. Values never saved do not appear.",
 ["histories","crash_points","fault_sequences","inputs"],
 "for every project, every sequence of assignments (project, channels, patterns, notes, controllers, arrangements, tracks, items, markers, mixer inserts and slots, plugins, envelopes, LFOs ...), saves, disk faults and crashes, and every value that fits",
 "The tests assert values read from one fixed FL 20.8 project and presets; hardly any of them assigns a property, none saves, reparses and compares, none crashes.",
 ["pyflp/_descriptors.py","pyflp/_events.py","pyflp/_adapters.py","pyflp/_models.py","pyflp/__init__.py"]+ALLM,
 M(("property descriptors","pyflp/_descriptors.py PropBase/EventProp/StructProp/FlagProp/KWProp"),("event value encoding","pyflp/_events.py EventBase.__bytes__"),("scalers","pyflp/_adapters.py"),("serialisation","pyflp/__init__.py save")),
 [{"name":"event values","meaning":"the decoded payload of every event; the object model is only a view on them","where":"pyflp/_events.py"}])
p("C02","An edit changes only what it names",
 "After any sequence of property assignments and plugin assignments, every other property of every object in the project reads as before, and the file a save writes differs from the file without those edits only in the bytes which store the edited properties: same events, same order, same everything else. Assigning one object's plugin to another copies it, so that later edits of either leave the other alone.",
 ["histories","inputs","fault_sequences"],
 "for every project, every sequence of edits interleaved with saves, failed saves and reopenings",
 "The tests never look at anything but the property they name, and never at the bytes of a saved file after an edit; which two properties share storage depends on the project's version and on which optional events it holds.",
 ["pyflp/_descriptors.py","pyflp/_events.py","pyflp/_models.py"]+ALLM,
 M(("which events belong to which object","EventTree.divide/separate/group/subtree and the collections' __iter__ in channel.py, mixer.py, arrangement.py, pattern.py"),("masking of flag fields","pyflp/_descriptors.py FlagProp"),("struct rebuild","pyflp/_events.py StructEventBase")))
p("C03","A project that is not edited never drifts",
 "Opening a project and saving it, any number of times and with any reading, iterating, printing and failing or crashing saves in between, yields the very bytes of the original file: every event, known or unknown, modelled or longer or shorter than modelled, of every supported version, keeps its position and payload, and the header its fields. (Files whose event lengths are not minimally encoded are excepted.)",
 ["inputs","histories","fault_sequences","crash_points"],
 "for every well formed project file of any version and every history free of edits",
 "One test opens and saves one project without faults and without looking at it in between.",
 ["pyflp/__init__.py","pyflp/_events.py","pyflp/_adapters.py"]+ALLM,
 M(("parse / save loops","pyflp/__init__.py"),("raw data kept for unmodelled payload","pyflp/_events.py EventBase"),("variable length integers","pyflp/_events.py, construct.VarInt")))
p("C04","A save that returns wrote the whole project; a failed one can be retried",
 "When save returns, the named file holds exactly the project's serialisation, whether it existed before, was longer or shorter, and however the system split, delayed or interrupted the writes; if any byte could not be stored (disk full, I/O error, error on close, file cannot be opened) save raises instead. Save does not fail as long as the system does all it is asked to do, and after a failure the next save of the same project succeeds and is complete.",
 ["fault_sequences","inputs","histories"],
 "for every project state, every pre-existing target, every path form, and every sequence of short writes, interrupted calls, disk-full points, I/O errors, open and close failures",
 "The test suite saves once to an empty temporary directory on a healthy disk.",
 ["pyflp/__init__.py"],
 M(("one open-truncate-write-close per save","pyflp/__init__.py save")))
p("C05","A value that cannot be stored is reported before anything is overwritten",
 "Assigning a value outside what the format can hold for that property either raises at the assignment, or makes the next save raise before the destination is created or altered; it is never silently wrapped, clipped into another value, or dropped. After assigning a valid value again, saves succeed and write exactly the repaired project.",
 ["inputs","histories","fault_sequences"],
 "for every editable property of every object, every kind of unfitting value (too large, negative, wrong type, undecodable text, None, too long), before and after other edits, with existing and new destinations",
 "No test assigns an invalid value and then saves.",
 ["pyflp/_events.py","pyflp/_descriptors.py","pyflp/_adapters.py","pyflp/__init__.py","pyflp/plugin.py","pyflp/channel.py"],
 M(("serialise everything, then open the file","pyflp/__init__.py save"),("construct's range checks","STRUCTs in all modules"),("validation in setters","pyflp/_descriptors.py")))
p("C06","A torn project file is never opened",
 "What a crash or failure in the middle of a save leaves behind, any proper prefix of a project file, a file with bytes appended, and a file whose reads end early are all refused by parse with the documented header-corruption error; no partial project is ever returned for them.",
 ["crash_points","inputs","fault_sequences"],
 "for every project, every crash point during save, every cut and every number of appended bytes",
 "Tests check a handful of hand-made bad headers; none of them cuts a real project at an arbitrary byte.",
 ["pyflp/__init__.py","pyflp/exceptions.py"],
 M(("size checks","pyflp/__init__.py parse: header size, file size against the data chunk's size")))
p("C07","Reading and saving never change the project, even when interrupted or failing",
 "Reading properties, iterating, looking up, printing, and saving leave the project as it was: all properties read the same and the next save writes the same bytes. That also holds when the operation is cut short by an exception at any point (interrupt, lack of memory) or the save fails on the disk.",
 ["schedules","fault_sequences","histories","inputs"],
 "for every project, every read-only operation or save, and every line of the library at which it may be interrupted, and every disk fault",
 "Interruption points and failing saves do not occur in the tests.",
 ["pyflp/_events.py","pyflp/_models.py","pyflp/_descriptors.py","pyflp/__init__.py"]+ALLM,
 M(("views share events, iterators build views only","pyflp/_events.py EventTree"),("serialisation without side effects","EventBase.__bytes__, Project header fields")))
p("C08","Opening a file is all or nothing, and can be repeated",
 "Parse either returns a complete project (saving it gives back the file, its properties are those stored) or raises; short, slow or interrupted reads are absorbed, and a read error, an early end of file or an exception raised at any point in the parser always surfaces. A failed attempt, at this or any other file, has no influence on the result of later ones, and the file itself is never touched.",
 ["fault_sequences","schedules","inputs","histories"],
 "for every project file, every fault of open and read, and every line of the parser at which it may be interrupted, followed by further attempts",
 "The tests parse healthy files on a healthy disk, once per file.",
 ["pyflp/__init__.py","pyflp/_events.py"],
 M(("whole file read at once, project built last","pyflp/__init__.py parse")))
p("C09","No file handle leaks, and only the named file is ever written",
 "When parse, save or any read of the project is over, be it by return or by exception, no file is left open; parse and reads never create or change any file, and save touches no file but the one named and leaves none behind beside it.",
 ["fault_sequences","schedules","inputs"],
 "for every call, every fault of open/read/write/close, every interruption point, every kind of non-project file, missing file and directory",
 "A leaked descriptor or stray file makes no test fail.",
 ["pyflp/__init__.py"],
 M(("with-statements around the two opens","pyflp/__init__.py")))
p("C10","All handles to the same object agree",
 "However an object of an open project was reached (iteration, index, name, a playlist item's channel or pattern, a layer's children, an earlier lookup kept around), an edit through one handle is visible at once through every other handle to it, through every other property that shows the same stored data, and in the next saved file.",
 ["histories","inputs"],
 "for every project, set of kept handles, and order of edits, lookups, reads and (failing) saves",
 "The tests hold one handle per object and do not edit through it.",
 ["pyflp/_models.py","pyflp/_events.py","pyflp/_descriptors.py"]+ALLM,
 M(("objects keep no state besides their events","pyflp/_models.py"),("list items write through to their event","pyflp/_models.py ItemModel.__setitem__"),("live lookup of references","pyflp/arrangement.py, pyflp/channel.py Layer")))
p("C11","A rejected edit leaves no trace",
 "When an assignment raises, because the value is invalid or because the project does not store that property, every property reads as before, later edits and saves work, and the saved file is the one of a history without that attempt; assigning a property the project has no storage for is never silently ignored. An invalid value that was accepted can be replaced by the old one, which restores the original state entirely.",
 ["histories","inputs","fault_sequences"],
 "for every project, every invalid value or absent property, at any point of an edit history",
 "Tests never provoke a failing assignment and continue.",
 ["pyflp/_descriptors.py","pyflp/_models.py","pyflp/_events.py"]+ALLM,
 M(("validate, then mutate","setters in pyflp/*.py"),("PropertyCannotBeSet","pyflp/_descriptors.py PropBase.__set__")))
p("C12","Adding and removing events through any view edits exactly that place",
 "Inserting, appending, popping or removing an event through the project's event list or through any view derived from it (at any nesting depth, also those behind the object model) changes the project's event sequence at exactly that one position, shows in the view, all its ancestors and the saved file, and affects no other event. An event already removed through another view is reported as missing; it is never taken to be a different one.",
 ["histories","inputs","crash_points"],
 "for every project, every tree of derived views, and every sequence of insertions and removals through them, interleaved with value edits, saves and crashes",
 "The tests insert into one flat tree and check lengths.",
 ["pyflp/_events.py"],
 M(("shared index records, shifted on insertion and removal","pyflp/_events.py EventTree.insert/pop"),("propagation to ancestors","EventTree._recursive")),
 obs=["EventTree views","the saved file's bytes"])
p("C13","Separate projects do not influence each other, in any interleaving",
 "Any number of projects, equal or different, opened, read, edited, saved, dropped and reopened by independent activities, each behave as if they were alone: for every interleaving of whole operations and for every interleaving of threads each working on its own project. Failures on one (bad file, full disk, rejected value) do not show in another, and a plugin copied from one project into another shares nothing with it afterwards.",
 ["schedules","histories","inputs","fault_sequences"],
 "for every set of projects, every program per project, and every schedule switching threads at any line of the library",
 "The tests are single threaded and share one read-only project.",
 ["pyflp/__init__.py","pyflp/_events.py","pyflp/_models.py","pyflp/_descriptors.py"]+ALLM,
 M(("no mutable module or class state","pyflp/*"),("per-parse local state","pyflp/__init__.py parse")))
p("C14","Damaged bytes are refused or shown as they are, never misread",
 "Given a project file with any bytes damaged, duplicated, dropped or swapped, parse either raises or returns a project whose header, event sequence and payloads are exactly those in the file as the format defines them; every property that then reads without error says what the stored bytes mean, and saving without edits either raises or reproduces the damaged file byte for byte.",
 ["inputs","fault_sequences"],
 "for every project and every damage: bit flips, overwritten bytes, zeroed or transplanted sectors, changed lengths, dropped, duplicated and swapped events, damaged headers",
 "The corruption tests cover a few fixed header faults.",
 ["pyflp/__init__.py","pyflp/_events.py","pyflp/_adapters.py"]+ALLM,
 M(("container checks","pyflp/__init__.py parse"),("STRUCTs","all modules")))
p("C15","Interleaved iterations each deliver what they would deliver alone",
 "Iterating channels, patterns, notes, controllers, markers, arrangements, tracks, playlist items, inserts, slots, groups, automation points or a layer's children yields each object exactly once, in stored order, complete and with correct properties, no matter how many other iterations, lookups, edits (other than of identifiers and references), saves or failures happen between two of its steps, and whether earlier iterations were finished or abandoned.",
 ["schedules","histories","inputs"],
 "for every project, every set of concurrently open iterations and every interleaving of their steps with lookups, edits and saves",
 "The tests run every iteration to its end before the next one starts.",
 ["pyflp/channel.py","pyflp/mixer.py","pyflp/arrangement.py","pyflp/pattern.py","pyflp/_events.py"],
 M(("lazy generators over event views","__iter__ of the collections"),("EventTree generators","divide/separate/group/terminated")))
p("C16","Threads that share one project for reading and saving do not disturb each other",
 "Any number of threads which read, iterate, look up and print the same open project and save it (each to a file of its own), at the same time, through shared or separate handles, each see what they would see alone; every file saved is complete and the project is the same afterwards.",
 ["schedules","histories","inputs"],
 "for every project, every set of read-only programs and saves and every schedule switching threads at any line of the library",
 "The tests are single threaded.",
 ["pyflp/__init__.py","pyflp/_events.py","pyflp/_models.py","pyflp/_descriptors.py"]+ALLM,
 M(("reads do not write shared state","pyflp/_descriptors.py __get__, collections' __iter__"),("save serialises into a local buffer","pyflp/__init__.py save")))
p("C17","Every operation ends, and costs no more for what was done before it",
 "Parsing any file, damaged ones included, and reading, iterating, printing or saving whatever was opened ends within a number of executed steps bounded by the size of the file. Repeating an operation on a project which is not changed in between takes no more steps the fiftieth time than at the beginning, whatever else was read, saved, interrupted by disk faults, rejected, or edited and set back meanwhile.",
 ["histories","fault_sequences","inputs"],
 "for every file, every operation, every number of repetitions and every kind of operation (failing ones included) in between",
 "Tests perform each operation once on one healthy project.",
 ["pyflp/__init__.py","pyflp/_events.py","pyflp/_models.py","pyflp/_descriptors.py"]+ALLM,
 M(("parse loop advances with every event","pyflp/__init__.py parse"),("views are rebuilt from the event list, nothing is searched in what earlier reads left","pyflp/_events.py EventTree")))
p("C18","Memory does not grow with what was done before",
 "Repeating any operation whose results are let go - parsing, reading, iterating (to the end or not), looking up, printing, saving, edits set back, opening a project and dropping it - does not make the process hold more and more objects, whether the operations succeed, fail on the disk, are rejected, or are cut short by an exception at any point. When the last handle to a project is gone, so is everything that was read from its file.",
 ["histories","fault_sequences","crash_points"],
 "for every project, every set of operations (failing and interrupted ones included) and every number of repetitions",
 "Tests never look at memory and perform each operation once.",
 ["pyflp/__init__.py","pyflp/_events.py","pyflp/_models.py","pyflp/_descriptors.py"]+ALLM,
 M(("views refer to their parents, parents only weakly to their views","pyflp/_events.py EventTree"),("no module-level state besides constants","pyflp")))
NA=[
 ("N01","Note names and key numbers convert to each other","Reading a note's key and assigning it as text are inverse for all 128 keys.","Note.key","pyflp/pattern.py"),
 ("N02","Licensee scrambling is reversible","Unscrambling a stored licensee and scrambling it again gives back the stored bytes.","Licensee property","pyflp/project.py"),
 ("N03","Scaling adapters are monotone and inverse to each other","Linear, logarithmic and bipolar scalings map their documented ranges onto each other monotonically.","adapters","pyflp/_adapters.py"),
 ("N04","Versions are totally ordered","Comparing FL Studio versions is a total order that agrees with their numeric components.","FLVersion","pyflp/types.py"),
 ("N05","Limits by version are as documented","Maximum number of inserts, slots and tracks follows the documented table for every version.","limits","pyflp/mixer.py"),
 ("N06","Slicing and negative indices follow sequence rules","Slices of channels, patterns, mixer and arrangements equal the slice of the list of their elements.","supports_slice","pyflp/_models.py"),
]
for id,t,s,n,f in NA:
    P.append({"id":id,"title":t,"statement":s,"quantifier":{"over":["inputs"],"text":"for every value"},"why_tests_cant":"Tests sample a few values.","anchors":{"files":[f],"mechanism":M((n,f))}})
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
na=[{"property":i,"reason":"A pure function of its arguments: no schedule, clock, I/O, fault or history it could depend on, so simulation with fault injection has nothing to decide. (Where such a function is part of an edit or read, the runs of C01/C02/C14 exercise it.)"} for i,*_ in NA]
checks=[]
LN="Seeded search over runs of the real library against an independent reference model (own decoder and layout of the format); no proof: assurance is what the explored runs cover (see evidence). Trusts the reference model, CPython-compatible semantics of the installed PyPy, and the kernel's tmpfs."
T={"C13":"deterministic simulation: seeded thread and operation schedules over the real library, reference model per project","C16":"deterministic simulation: seeded thread schedules over the real library, reference model","C17":"deterministic simulation: repeated operations under seeded histories and disk faults, executed lines as simulated time","C18":"deterministic simulation: repeated operations under seeded disk faults and interruptions, census of living objects"}
for q in P:
    if q["id"][0]=="C":
        checks.append({"property":q["id"],"quick_cmd":"./check.sh %s quick"%q["id"],"thorough_cmd":"./check.sh %s thorough"%q["id"],
          "technique":T.get(q["id"],"deterministic simulation with fault injection, checked against a reference model"),"level":"exploration","level_note":LN})
json.dump({"version":1,"setup_cmd":"./check.sh setup","hooks":{"guard":"none","enable":"no hooks: the seams are libc's file calls (LD_PRELOAD), the interpreter's line events and threading's locks","source_commits":[]},"checks":checks,"not_applicable":na,
 "notes":"VERIF_SEED selects the seed; ./check.sh replay FILE executes a replay file; ./check.sh selftest checks the simulator's determinism."},open('/verif/MANIFEST.json','w'),indent=1)
