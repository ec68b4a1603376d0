#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the notes below.
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = "property-based testing (seeded proptest generation, shrinking): "
notes = {
 "C01": (T+"encode/decode round trip against a reference value model", "Search over generated packets and typed values; the reference is plain serde_json of the generated value with byte strings written out. Trusts serde_json and the harness's value model."),
 "C02": (T+"differential against an independent packet scanner", "Search over well-formed, edited and token-soup texts judged by a hand-written scanner. Trusts that scanner and serde_json's notion of a JSON text."),
 "C03": (T+"no-panic invariant over hostile message histories", "Search over hostile messages; every panic reaching the caller counts, with overflow checks and debug assertions on. One serde_json panic is excluded (DESIGN.md)."),
 "C04": (T+"differential against the generated attachment list", "Search over packets and attachment lists generated together with the expected reading."),
 "C05": (T+"differential against plain serde_json on the written-out argument", "Search over about 120 target types and JSON shaped for each; one known finding is excluded by construction."),
 "C06": (T+"differential against a reference extraction over the serde data model", "Search over generated values; reference extraction written from the property, plain JSON by serde_json."),
 "C07": (T+"metamorphic relation: failing arguments removed beforehand", "Search over interleavings of serializable and failing arguments."),
 "C08": (T+"stateful comparison with a three-state session model", "Search over message histories with exact accept/reject prediction."),
 "C09": (T+"round trip of engine framing", "Search over payloads and open packets."),
 "C10": (T+"model-based operation chains against plain slices", "Search over containers, ranges and operation chains."),
 "C25": (T+"differential against a reference printed form", "Search over packets; the reference is serde_json's compact form of the generated value."),
}
sim = "whole client in a deterministic simulation (in-memory transport, own scheduler, virtual clock, independent websocket peer); "
S = T + sim
notes.update({
 "C11": (S+"stateful histories against a model of the handler tables", "Search over histories of handler changes and received events; the model predicts each call with its arguments. A second part changes handlers from another thread while events arrive and looks for an order that explains every call."),
 "C12": (S+"stateful histories against a model of outstanding acknowledgements", "Search over histories of emits and acknowledgements in any order, and emits from several real threads."),
 "C13": (S+"frames read by the peer against the order of send calls", "Search over histories of sends with random write splitting and back-pressure, sends under a server that never falls silent, and sends from several real threads."),
 "C14": (S+"pong count and position against the pings fed", "Search over inbound histories with pings everywhere, pings under a server that never falls silent, and pings while threads send."),
 "C15": (S+"metamorphic relation between two deliveries of the same messages", "Search over chunkings, fragmentations and control frame positions; two runs are compared."),
 "C16": (S+"fault injection at random byte positions and times, predicted outcome", "Search over server answers, faults and delays under a virtual clock."),
 "C17": (S+"random peers around close with predicted outcomes", "Search over unsent packets, blocked writes, peer reactions, deaths and drops under a virtual clock."),
 "C18": (S+"violations injected at random positions, predicted outcome", "Search over inbound histories with one violation, every log statement formatted."),
 "C19": (S+"client operations injected while a handler runs, from it and from a helper thread", "Search over operations; a helper that sleeps two seconds without a break while the handler runs counts as blocked. Uses real threads."),
 "C20": (S+"URLs built from parts against the connector arguments and request bytes", "Search over URLs; hosts are taken from a table with their expected spelling."),
 "C22": (S+"drop counters in every handler and callback against a model of which are still due", "Search over histories of handler changes, emits, acknowledgements, deaths, closes and drops."),
 "C23": (S+"operations after a generated end of the connection, with a no-panic, no-effect oracle", "Search over histories, nine ways to end and the operations that follow; what close reports is compared with a run without them."),
 "C24": (S+"interleaved histories of several clients, each against its own model", "Search over interleavings of two or three clients."),
 "C26": (S+"memory accounting over repeated rounds of generated traffic", "Search over repeated rounds, with a counting allocator; growth must show in two successive intervals of 140 rounds. Peak use is judged against a generous multiple of the bytes received."),
 "C27": (S+"stateful histories around close against a model", "Search over histories, chunkings and back-pressure around the call of close, with the close future driven alongside."),
 "C28": (S+"poll counts against bytes moved, over random silences", "Search over sessions with silences under a virtual clock; a poll in a silence counts, elsewhere polls are judged against about four times what the client needs today."),
 "C21": (S+"stateful histories of events and replies against a model", "Search over events with and without ids and replies at once, later, reordered or dropped."),
})
pending = {i: "check under construction" for i in ids if i not in notes}
m = {
 "version": 1,
 "setup_cmd": "bash ./build.sh",
 "checks": [dict(property=i, quick_cmd=f"bash ./check.sh {i} quick", thorough_cmd=f"bash ./check.sh {i} thorough",
      technique=notes[i][0], level="exploration", level_note=notes[i][1]) for i in ids if i in notes],
 "not_applicable": [dict(property=i, reason=r) for i, r in pending.items()],
 "notes": "No hooks: the harness uses the public API of the three crates. VP_SCALE, VP_WORKERS, VP_PART and VERIF_SEED tune a run; `./target/debug/vp replay <ID> <file>` replays one case.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
