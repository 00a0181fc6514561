import json,subprocess
T="deterministic simulation with fault injection"
base="Seeded search: schedules, deliveries and faults are sampled, not enumerated; a clean batch is evidence, not proof. "
notes={
"C01":"Compares every delivery with the slowest conforming one (8-byte window, byte-wise operations), event for event, position for position and error for error. Trusts the reference source (60 lines) to be conforming.",
"C02":"Every call of a seeded call history is compared with a queue model of the documented meaning of the call. Trusts the queue model; only calls within the documented preconditions are made.",
"C03":"Oracle: the writer that produced the text knows the events it meant, independently of the parser. Covers the presentation forms the writer model knows (DESIGN.md lists what it leaves out).",
"C04":"Differential against pulling only. Legal schedules only: load is called at document boundaries.",
"C05":"The four ways out of the parser are compared with each other and with trees built by an independent tree builder, with its own core-schema resolver, from the pulled events.",
"C06":"Each job's log is compared with its log when run alone in the same process and after the fact; one OS thread, switches at call boundaries and inside source reads.",
"C07":"Budgets: 40000 + 400 source accesses per byte, live memory 4 MiB + 4000 bytes per stream byte, 60 s wall clock per run. Nesting depth and alias expansion bounded as the property says.",
"C08":"A push-down acceptor of event sequences judges each event as it is delivered.",
"C09":"The error is reached and then probed by seeded calls through every API.",
"C10":"The writer waits for the acknowledgement of each document before it sends the next segment; a read for more before that is a deadlock. Runs on simulated windows, because the shipped byte source pulls from an iterator ahead of need by design.",
"C11":"Oracle: the writer model's documents, and the uninterrupted parse for positions. Documents stand alone, reordered, repeated and behind hostile predecessors.",
"C12":"Line and column recomputed from the bytes for every reported offset; start positions known from the writer.",
"C13":"A contract meter around every source checks look-ahead and skips against the advertised length; delivered bytes are checked for UTF-8 before use; the library's debug assertions are on.",
"C14":"Oracle: the text the same value gives on a healthy sink. Values whose healthy serialization is itself unimplemented in the library (todo!) are skipped.",
"C15":"Oracle: the events pulled from the same stream through the pull API, and for intact documents the value the writer meant. Scalars are resolved by an independent core-schema resolver.",
"C16":"Receivers unwind at seeded events; what was received before and after is compared with an undisturbed pull.",
"C18":"The writer marks where its text can be damaged and how; each kind of damage is one that no derivation of the grammar survives, wherever it is applied (argued next to each in sim/src/props3.rs). Kinds the library is lenient about on purpose or by its tests (closing brackets and sequence items' quoted lines at the parent's column, tabs before the first entry) are not claimed.",
"C17":"Two builds of the library: what is consumed from the build that reports comments is compared, comments aside, with what a process of the build without them delivers for the same stream; comments are compared with those the writer wrote. A fifth of the runs repeats the scenarios of C01-C13, C15, C16 and C18 in the build with comments.",
}
checks=[{"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","technique":T,"level":"exploration","level_note":base+v} for k,v in notes.items()]
pure="a pure function of its input: no stream, schedule, clock, fault or interleaving takes part, so a simulator has nothing to decide; "
na=[
("C20",pure+"needs input generation against a reference resolver, which is another family."),
("C21",pure+"needs generated trees and a round trip, which is another family (the emitter under failing sinks is C14)."),
("C22",pure+"needs generated values and a round trip, which is another family (the serializer under failing sinks is C14)."),
("C23",pure+"a lane-wise identity to be proved or enumerated (what the helpers are used for, window searches in the byte source, is C02)."),
("C24",pure+"single-owner in-memory trees without any outside event."),
("C25","conformance of an input language to a grammar: the oracle would be a second grammar, and no schedule or fault takes part; the parts of it that damage and delivery can reach are C01, C03, C07, C08 and C18."),
]
hook=subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=^sim:"],text=True).split()
m={"version":1,"setup_cmd":"./check.sh build","hooks":{"guard":"cfg(yam_sim)","enable":"RUSTFLAGS --cfg yam_sim, set by /verif/sim/.cargo/config.toml for the harness build only","source_commits":hook[::-1]},
"checks":checks,"not_applicable":[{"property":a,"reason":b} for a,b in na],
"notes":"One binary (sim/, built against /repo's working tree, and a second time with the comment feature for C17) holds all checks; tools/mkmanifest.py writes this file."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
