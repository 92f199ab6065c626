"""Writes MANIFEST.json. Run from /verif."""
import json

NOTES = {
    "P01": ("model-based PBT of generated applications", "Generated applications, message trees and histories are run on a real engine; the calls that handlers receive are compared with the deliveries that the routing table demands."),
    "P02": ("model-based PBT of generated applications", "The envelopes of all facts of a history are reconstructed into a causal forest and compared with the messages the scripted handlers produced."),
    "P03": ("model-based PBT of generated applications", "The order of handler calls is compared with a FIFO queue replayed from the recorded productions."),
    "P04": ("model-based PBT (fold oracle)", "Every root a handler sees is compared with a fold over the events that the instance recorded."),
    "P05": ("model-based PBT (state machine oracle)", "Every root and instance a process handler sees is compared with an instance table replayed from earlier calls."),
    "P06": ("model-based PBT (timer oracle)", "Every timeout call is compared with a table of pending timeouts replayed from earlier calls."),
    "P07": ("model-based PBT with fault injection", "The sequence of protocol calls for each event is compared with the one dictated by the scripted outcome of each step."),
    "P08": ("model-based PBT with fault injection", "Compaction calls and facts are compared with the schedule; an observer detects overlapping notifications."),
    "P09": ("model-based PBT over option sequences", "The handlers that run and the skips announced are compared with an independent evaluation of the options."),
    "P10": ("model-based PBT with fault injection", "Errors and cancellations are injected at random points; returned errors and all remaining deliveries are compared with the model."),
    "P11": ("model-based PBT with fault injection", "Contract violations and panics are injected at random points; panic values and everything done afterwards are compared with the model."),
    "P12": ("differential PBT", "Histories and tests interleaved with refused requests are compared with the same ones without them; constructors are called with generated valid and invalid arguments."),
    "P13": ("model-based PBT (grammar oracle)", "The facts of each operation are parsed by a grammar and matched with the handler calls recorded between them."),
    "P14": ("differential and model-based PBT", "What follows a reset is compared with a new engine, or with the models used for other properties."),
    "P15": ("concurrent PBT under the race detector", "Operations are performed by several goroutines with generated yields; results are compared with the serial history found in the recorded facts."),
    "P16": ("model-based PBT with fault injection", "The ticks announced by a running engine are compared with what the interval, options, scripted errors and cancellation demand."),
    "P17": ("model-based PBT", "The verdicts of generated expectations are compared with an independent evaluation over the messages produced."),
    "P18": ("model-based PBT", "The verdicts of generated expectation trees are compared with an independent boolean evaluation; instrumented leaves record how they are used."),
    "P19": ("model-based PBT", "The calls that a scripted testing.T receives are compared with the ones that the actions and verdicts demand."),
    "P20": ("model-based PBT", "Refusals of generated expectation trees are compared with an independent evaluation of the application's routes; refused actions must leave no trace."),
    "P21": ("model-based PBT with a report parser", "Test reports are parsed and compared with the verdict tree, the messages produced and diffs computed independently."),
    "P22": ("model-based PBT", "The engine times seen by handlers and facts are compared with a model of the virtual clock."),
    "P23": ("model-based PBT", "Commands executed by generated user code, with generated interceptors, are compared with a model of the executor."),
    "P24": ("model-based PBT of generated programs", "Generated programs over the user-defined check's T are compared with an interpreter that models testing.T."),
    "P25": ("model-based PBT", "Skipped handlers are compared with an independent evaluation of generated name and pattern switches."),
    "P26": ("PBT over structured values", "Comparisons of generated pairs of messages are compared with their construction: equal copies, or copies changed in known places."),
    "P27": ("PBT with an independent renderer", "The log line of each generated or observed fact is compared with one rendered from a specification."),
    "P28": ("PBT over generated call chains", "Locations reported for marked functions, calls and panics are compared with the known positions of the marks."),
    "P29": ("PBT with an independent matcher", "The text of generated reports is matched against a grammar derived from what was put into them, with failing writers."),
    "P30": ("model-based PBT", "Tests whose actions and expectations are partly implemented by the harness are compared with the models used for built-in ones."),
    "P31": ("model-based PBT", "Contexts of several kinds are marked with values and cancelled by scripts; every handler method and interceptor records what it is given."),
    "P32": ("concurrency PBT with the race detector", "Goroutines within a call action execute generated commands under the race detector; the resulting history is serialised and judged by the models used for sequential ones."),
}

checks = []
for pid in sorted(NOTES):
    technique, note = NOTES[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"./run.sh {pid}",
        "thorough_cmd": f"./run.sh {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })

json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks use only the public API of the module; there are no hooks in the source.",
}, open("MANIFEST.json", "w"), indent=1)
