#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
S="manul/src/session/session.rs"; E="manul/src/session/echo.rs"; V="manul/src/session/evidence.rs"
M="manul/src/session/message.rs"; T="manul/src/session/transcript.rs"; K="manul/src/session/tokio.rs"
PM="manul/src/protocol/message.rs"; PR="manul/src/protocol/round_id.rs"; DR="manul/src/protocol/dyn_round.rs"
PE="manul/src/protocol/evidence.rs"; RI="manul/src/protocol/round_info.rs"; CH="manul/src/combinators/chain.rs"
EX="manul/src/dev/extend.rs"; MB="manul/src/dev/misbehave.rs"; RS="manul/src/dev/run_sync.rs"; DT="manul/src/dev/tokio.rs"
WF="manul/src/dev/wire_format.rs"; SM="manul/src/utils/serializable_map.rs"; RD="manul/src/protocol/round.rs"
def P(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None))
props=[
P("C01","Honest sessions complete for every delivery order",
 "When every party follows the protocol, and the protocol declares every two rounds that can be active at different parties at the same time as parent and child or as siblings, then for every order in which messages can be delivered (including a peer's next-round message overtaking its current one), every party reaches the result the protocol prescribes. No party stalls, no call returns a local error, and every final report has empty provable-error, unprovable-error and missing-message lists.",
 ["schedules","configurations"],"All delivery interleavings of all messages between 2 to 4 honest parties, over protocol shapes: one or several rounds, with and without echo broadcasts, partial participation, branching/sibling rounds, chained and nested-chained protocols. Parties are never more than one round apart.",
 "Existing tests run one random order per execution of run_sync; only orders that happen to be drawn are seen, and early messages crossing an echo round practically never are.",
 [S,E,T,PR,CH],[("acceptable rounds and caching of early messages",S),("echo round inserted after a round with echo broadcasts",E)],
 [("accumulator cache","messages for later rounds received early",S)],["SessionReport"]),
P("C02","Remote input never aborts an honest party's session",
 "No message, however malformed, mistimed, duplicated, unexpected or maliciously signed, makes a session call of an honest party return a local error or panic. The worst a remote party can cause is an error entry against itself and the loss of its own contribution.",
 ["histories","inputs","fault_sequences"],"All sequences up to a depth bound of honest and adversarial messages (wrong session, wrong round, echo rounds, unexpected senders, mixed parts, bad signatures, wrong part types, duplicates, cached and live copies) interleaved with finalization, in every round of several protocol shapes.",
 "Tests deliver well-formed messages from misbehaving rounds only; sequences such as cached-then-live duplicates or unexpected senders are never produced.",
 [S,T,E,M],[("preprocessing checks before any state is changed",S),("error registration",S),("transcript update",T)],[("banned senders","parties with a recorded error",S)],["Result of every Session call"]),
P("C03","An honest party is never blamed during execution",
 "Whatever corrupted parties send, and in whatever order messages arrive, an honest party that follows the protocol never appears among the provable or unprovable errors of another honest party's report. Equivocation or a false echo by a corrupted party is attributed to that corrupted party.",
 ["histories","fault_sequences","schedules"],"All deliveries in systems of 3 to 4 parties with one or two corrupted parties choosing every message from an adversarial menu (equivocating echo broadcasts, altered, stale, cross-kind and mis-signed echo packs, malformed parts, silence), over all delivery orders within the bound.",
 "Tests have one fixed misbehaviour per run with every other node honest and one random order, and check only that the expected node is blamed for that one behaviour.",
 [S,E,V,M],[("registration of errors under the party at fault",S),("echo comparison",E),("domain separation of signed parts",M)],[],["SessionReport.provable_errors","SessionReport.unprovable_errors"]),
P("C04","Evidence against an honest party never verifies",
 "No evidence object naming a party that only ever signed what the protocol prescribes passes verification, however it is assembled from messages signed by that party and by corrupted parties. This includes swapping the named party, mixing message parts, rounds, roles or sessions, and attaching arbitrary signed echo packs.",
 ["inputs","histories"],"Every evidence obtained from genuine or adversarial runs with every single (and selected double) subtree of its serialized form replaced by every compatible subtree found in any other signed material of all parties, two sessions and all rounds; plus all direct constructions from honest material.",
 "Tests only verify correct evidence produced by the library itself; no test tries to forge evidence.",
 [V,E,M,RI],[("signature checks against the named party",V),("metadata equality checks",E),("part-kind separation in digests",PM)],[],["Evidence::verify"]),
P("C05","Every recorded provable error is convincing evidence",
 "Each provable error in a report is stored under the party it accuses, and verifies for a third party that has only the public shared data. It still verifies after being serialized and deserialized in any supported wire format.",
 ["histories","fault_sequences"],"All misbehaviours of the adversarial menu (each malformed part in each round, echo rounds included, protocol errors requiring any combination of current and previous messages and combined echoes, equivocation, invalid echoes) in plain, chained and nested-chained protocols.",
 "Tests verify a handful of evidence kinds in one protocol each, without serialization and mostly without chains.",
 [V,E,S,CH,RI],[("evidence construction from the transcript",V),("round id regrouping in chains",CH)],[],["Evidence::guilty_party","Evidence::verify"]),
P("C06","Echo broadcasts are consistent or the equivocator is exposed",
 "Two honest parties that both complete a round with echo broadcasts have received the same echo broadcast from every sender they both expected one from. If a sender sends them different ones, at least one honest party detects it and reports evidence against that sender, and no honest party detecting it proceeds past the echo exchange as if all was well. An echo message that does not cover exactly the broadcasts it has to confirm is a fault of its sender and confirms nothing.",
 ["fault_sequences","schedules","configurations"],"All assignments of echo broadcasts by corrupted senders to recipients (values from a 3-element set), all honest and adversarial echo responses by the corrupted parties, all delivery orders, 3 and 4 parties, default and partial participation, in echo rounds inside chains as well.",
 "One test overrides an echo broadcast once; the joint behaviour of equivocation, selective echo answers and delivery order is not explored.",
 [E,S],[("echo round and comparison of hashes",E),("echo participation",S)],[],["finalize payloads","SessionReport"]),
P("C07","Messages are accepted only with their sender's valid signature",
 "A message influences a round only if each of its parts carries a valid signature of the party it is attributed to, made for this session, this round and this role of part, over exactly this content. Any alteration, substitution or recombination of signed material results in the message being rejected and recorded as an error of its sender.",
 ["inputs","histories"],"Every message of small runs with every single subtree of its serialized form replaced by every other subtree of signed material from all parties, rounds, parts and a second session, every flipped signature byte, and every wrong attributed sender.",
 "Tests never deliver tampered or recombined messages; the test signer in the repository even ignores the digest.",
 [M,S,PM],[("metadata unification",M),("signature verification over metadata and part hash",M)],[],["Session::preprocess_message"]),
P("C08","A message is processed at most once",
 "For each sender and round, at most one message is ever applied. Until the round is over, every further copy or competing message for it, whether it arrives while the first is in progress, after it was applied, or after the first was buffered for a later round, is rejected and recorded as an error of that sender, and afterwards such a message has no effect on what was or will be applied. The first message's contribution is never changed.",
 ["histories","schedules"],"All interleavings of preprocessing, processing and adding of up to three copies or conflicting messages per sender, including buffered ones delivered in the next round, in rounds with and without echo.",
 "No test delivers a message twice.",
 [S],[("marks for messages in progress, applied and cached",S)],[("processing set","senders whose message is being handled",S)],["PreprocessOutcome","receive calls seen by the protocol"]),
P("C09","A party with a recorded error is excluded from then on",
 "Once an error of a party is recorded, no message of that party that arrives afterwards or is still buffered is handed on for processing, in this or any later round, and such messages cause no further error entries. Messages of the other parties are unaffected.",
 ["histories"],"All sequences within the depth bound that put an error (malformed, wrong round, wrong session, invalid content, bad echo) before or after buffered and live messages, across round, echo-round and chain boundaries.",
 "No test sends anything after an offence.",
 [S,T],[("ban checks on receipt and on delivery of cached messages",S)],[("recorded errors","provable and unprovable errors in accumulator and transcript",T)],["receive calls seen by the protocol","SessionReport"]),
P("C10","Early messages are kept and delivered exactly once in their round",
 "A valid message for a round that can directly follow the current one (its echo round included) is buffered and handed over exactly once, when and only when that round starts, also if an echo round comes in between. Messages for unreachable or past rounds are not applied.",
 ["schedules","histories","configurations"],"All arrival points of each early message relative to all other messages and finalizations, for linear, echo, branching (several possible next rounds and sibling rounds) and chained protocols.",
 "Random orders of the tests rarely make a message two steps early and never check that the buffered one is delivered.",
 [S,PR,CH],[("simultaneous rounds",PR),("cached message filtering on finalization",S)],[("cache","per sender and round",S)],["RoundOutcome::AnotherRound","receive calls seen by the protocol"]),
P("C11","The can-finalize answer is exact",
 "The status is `yes` exactly when every expected sender's message was successfully applied, `never` exactly when some expected sender can no longer contribute (its message failed or it is excluded) and no answer is still outstanding, and `not yet` otherwise. In particular it never stays at `not yet` when no further message could be accepted, and never gives up while an outstanding sender could still answer.",
 ["histories","schedules"],"All accumulator states reachable by sequences of good, bad, duplicate and adversarial messages from all expected and unexpected senders, at every step between preprocessing and adding, in every round.",
 "Tests only see the final outcome of runs that succeed or end with one failure.",
 [S],[("status computation",S)],[],["Session::can_finalize"]),
P("C12","Session reports state exactly what happened",
 "The outcome is the result, `not enough messages` when the session was ended because finalization became impossible, or `terminated` when the user ended it. Provable and unprovable errors list exactly the parties whose errors were recorded in any round, and missing messages list, per round, exactly the expected parties whose message for it had not been processed (successfully or not) when the round ended.",
 ["histories"],"All histories within the bound that end by result, by impossibility or by termination in any round, with errors and silent parties in every combination.",
 "Tests inspect reports only for one misbehaviour at a time and never the outcome kind or the missing messages.",
 [S,T],[("termination and transcript update",S),("report construction",T)],[],["SessionReport"]),
P("C13","Async session drivers behave the same under every task schedule",
 "For every scheduling of tasks, channel operations and incoming messages, the asynchronous session runners (sequential and offloading) finish with the same result and errors as the session API driven by hand, send every message of every round exactly once, and never deadlock or fail locally. Each message creation uses its own randomness. This assumes that what the session sends is taken from the outgoing channel and that the incoming channel stays open.",
 ["schedules","configurations"],"All interleavings of the runner, its worker tasks, bounded channels and the environment (up to a bound on deviations for larger configurations, exhaustive for small ones), including rounds without destinations, rounds finishing before all messages are sent and more than a channel's capacity of peers.",
 "The async tests run once under the operating system's scheduler.",
 [K,DT],[("select loop and task joins",K),("channels of bounded capacity",K)],[],["outgoing channel","SessionReport"]),
P("C14","Cancellation always ends an async session with a report",
 "If cancellation is requested at any moment, an asynchronous session runner ends in finite time with a report and no local error, unless it finishes regularly first. The report has the `terminated` outcome and contains everything recorded up to then: errors, and as missing only parties whose message was not received. This assumes that what the session sends is taken from the outgoing channel and that the incoming channel stays open.",
 ["schedules","fault_sequences"],"Cancellation injected at every scheduling point of the runner and its workers in small configurations, and at every environment step with many peers (more than the channel capacity).",
 "No test uses the cancellation token.",
 [K,S],[("cancellation branch of the select loop and subsequent joins",K)],[],["SessionReport.outcome"]),
P("C15","A chained protocol equals its parts run in sequence",
 "Executing a chained protocol (nested chains included) gives exactly what running the first protocol and then the second, started from the first one's result, would give, for every delivery order across the boundary. Rounds of the two halves are never confused, and evidence and errors from either half verify against that half's rules and shared data only.",
 ["configurations","schedules","fault_sequences"],"Chains and nested chains of one- and two-round protocols with and without echo rounds at the boundary, all delivery orders, all offences of the menu in each half, and evidence moved to the other half.",
 "One example chain is run in a random order.",
 [CH,PR,V],[("round id grouping",PR),("delegation with regrouping",CH)],[],["SessionReport","Protocol::round_info","Evidence::verify"]),
P("C16","Round extensions change only what they override",
 "Wrapping an entry point (for a chained protocol, the entry points of its parts) without extensions, or with extensions that do not override anything, gives the same messages, results, errors and evidence as the plain protocol. An overriding extension affects exactly the rounds and methods it overrides, on the node it is installed on, and the offences of an extended node produce evidence that verifies against the plain protocol.",
 ["configurations","schedules"],"All subsets of extended rounds and overridden methods of a three-round protocol on each node, compared with the plain run message by message and report by report.",
 "Tests use an extension to provoke one error in one round.",
 [EX,MB],[("round wrapping",EX)],[],["messages","SessionReport"]),
P("C17","Serialization is lossless and hostile bytes are harmless",
 "Messages and evidence survive serialization and deserialization in the supported formats unchanged in meaning, and maps are written as key-ordered lists of pairs whose duplicate keys are rejected on reading. No byte string makes deserialization or handling of a deserialized object panic.",
 ["inputs"],"All messages and evidence of small runs in the binary and human-readable formats; every truncation, every single-byte change over a byte alphabet and every deletion/duplication of an element of each serialized object; all map contents up to size 3 over a 3-key alphabet and all pair lists up to length 3.",
 "Tests check one round trip per map format.",
 [SM,WF,M,V,PM],[("map visitor with duplicate check",SM),("persistent deserializer adapters",WF)],[],["serde implementations","WireFormat"]),
P("C18","Rounds are finalized with exactly what was received and created",
 "A round is finalized with one payload per sender, computed by the protocol from precisely the message that sender sent to this party for this round, and one artifact per destination, produced when precisely that destination's message was created. Nothing is lost, duplicated, attributed to another party or carried over from another round, including when an echo round lies between receipt and finalization.",
 ["schedules","configurations"],"All delivery orders and all orders of creating messages, in rounds with every combination of direct messages, echo broadcasts and normal broadcasts, with echo rounds, partial participation and chains.",
 "Examples sum the values, so permuted or duplicated payloads can go unnoticed, and artifacts are hardly used.",
 [S,DR,E,CH],[("payload and artifact maps",S),("typed wrapping",DR),("payload hand-over across the echo round",E)],[],["Round::finalize arguments"]),
P("C19","Malformed message parts are attributed exactly",
 "A part that does not decode as the type the round declares, is missing where declared, or is present where none is declared, yields a provable error naming its sender whose evidence consists of that part and verifies. A message whose parts all have the declared form is never reported as malformed, and no evidence of malformedness verifies for it.",
 ["inputs","configurations"],"All eight combinations of declared parts crossed with all combinations of correct, absent, unexpected and undecodable parts sent, in ordinary, echo and chained rounds and both wire formats.",
 "Tests send one malformed part kind in one configuration each.",
 [DR,PM,RI,V,E],[("part decoding",DR),("verification that a part is invalid",RI)],[],["SessionReport.provable_errors","Evidence::verify"]),
P("C20","The synchronous test runner executes every session faithfully",
 "For every outcome of its random choices, the synchronous runner delivers each message produced by each party exactly once to its addressee, ends for every party set and protocol shape (including single parties and rounds without messages) without panic, and returns one report per party equal to that of the session driven by hand.",
 ["schedules","configurations"],"All sequences of random choices of the runner (enumerated through the random generator it is given) for 1 to 3 parties and all small protocol shapes, including misbehaving parties.",
 "Each test run draws one sequence of choices.",
 [RS],[("message queue and random selection",RS)],[],["ExecutionResult"]),
P("C21","The asynchronous test runner executes every session faithfully",
 "For every task schedule, the asynchronous runner with its message dispatcher delivers every message to its addressee, in both processing modes, ends without deadlock and returns one report per party equal to that of the session driven by hand.",
 ["schedules","configurations"],"All interleavings (up to a deviation bound) of node tasks, worker tasks and the dispatcher, and all random picks of the dispatcher, for 2 and 3 parties.",
 "Run once per mode under the operating system's scheduler.",
 [DT,K],[("dispatcher loop",DT)],[],["ExecutionResult"]),
P("C22","Protocol-error evidence carries exactly the requested messages",
 "When a protocol reports a provable error, its verifier later sees exactly the accused party's original message parts it asked for, from this and earlier rounds, and exactly the echo broadcasts that party confirmed, all authenticated for the same session. If any of them is altered, removed, or replaced by another round's, party's or session's, verification fails.",
 ["configurations","inputs"],"All combinations of required parts of the current and previous rounds and combined echoes, in plain, chained and nested-chained protocols, with every single-subtree substitution of the resulting evidence.",
 "The examples require one fixed set of messages.",
 [V,PE,RI,CH,T],[("collection of required messages from the transcript",V),("verification and regrouping of attached messages",V)],[],["EvidenceMessages accessors","Evidence::verify"]),
]
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in props:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(props))
