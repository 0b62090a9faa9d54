#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as code so that the long texts stay reviewable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":a})

p("C01","Iris membership answer equals the plaintext answer at every party",
 "When three parties run an iris membership query on shares of the same probe and database with public masks, each of them gets the same boolean, and it is true exactly when some database entry's Hamming distance to the probe, counted on the positions set in both masks, is below floor(0.34 * number of such positions). This holds for the semi-honest ABY3, the malicious ABY3, the SPDZ-wise and the SWIFT3 protocols, for any database size and chunk size, for any number of queries on one session, and however message deliveries and party speeds interleave.",
 ["schedules","inputs","histories"],
 "every delivery order and relative party speed; every probe, database, masks with enough set bits, chunk size; every sequence of queries on one session",
 "The tests run a handful of random codes once per session on an in-memory FIFO with whatever order tokio picks; three of the SWIFT3 iris tests are ignored as too slow. They cover no repeated queries on a session, no uneven chunking for the MAC protocol's triple budget, no controlled interleaving, and no distances placed next to the threshold at many mask weights.",
 ["iris-mpc/src/iris/protocol.rs","iris-mpc/src/aby3/protocol.rs","iris-mpc/src/aby3_mal/protocol.rs","iris-mpc/src/spdzwise/protocol.rs","iris-mpc/src/swift3/protocol.rs"],
 [("masked dot product, threshold subtraction, msb, or-tree, verify, open","iris-mpc/src/iris/protocol.rs iris_in_db"),("and-triple budgeting","iris-mpc/src/spdzwise/protocol.rs precompute_and_triples / verify_triple_queue")],
 ["IrisProtocol::iris_in_db result at each party"])

p("C02","Unusable queries are refused by every party and leave the session usable",
 "A membership query whose database is empty, whose mask list has a different length than the database, whose code vectors are not 12800 long, or in which any entry's combined mask has fewer than 70 percent of its bits set, returns an error at every party, never a boolean and never a panic, and no party stays blocked. A valid query issued afterwards on the same session still returns the plaintext answer at every party.",
 ["inputs","histories","schedules"],
 "every malformed query of these kinds, placed anywhere (first, middle, last chunk) in any history of queries on one session, under any interleaving",
 "The tests call the query only with valid input; none issues a refused query and then continues on the session, so neither party agreement on refusal nor leftover protocol state is exercised.",
 ["iris-mpc/src/iris/protocol.rs"],
 [("size and mask weight checks","iris-mpc/src/iris/protocol.rs iris_in_db, compare_iris_many, combine_masks, masked_hamming_distance_post")],
 ["IrisProtocol::iris_in_db result at each party, and of the following query"])

p("C03","Semi-honest ABY3 programs open to the plaintext result at every party",
 "Any straight-line program of sharing, input, addition, subtraction, constants, multiplication, dot products, sign-bit extraction, OR and OR-reduction run by three honest ABY3 parties opens, at every party, to the value that wrapping integer arithmetic on the plaintexts gives. This holds for every ring width, vector length and chunk size, at whatever points values are opened, and for every interleaving of parties and delays of messages, as long as each link keeps its own order.",
 ["programs","schedules","inputs"],
 "all programs over the public operations, all ring widths (8 to 64 bits), all vector lengths and chunk sizes, all schedules",
 "Existing tests run one operation per test on one random input over an in-memory network; combinations, odd lengths, many opens in one session and adversarial interleavings are never executed.",
 ["iris-mpc/src/aby3/protocol.rs","iris-mpc/src/aby3/share.rs","iris-mpc/src/aby3/utils.rs","iris-mpc/src/traits/binary_trait.rs","iris-mpc/src/aby3/random/prf.rs"],
 [("correlated PRFs stay in lockstep at the three parties","iris-mpc/src/aby3/random/prf.rs"),("local multiplication plus resharing","iris-mpc/src/aby3/protocol.rs mul, dot_many, and_many")],
 ["open, open_many, open_bit, open_bit_many at each party"])

p("C04","Malicious ABY3 accepts honest runs and opens the plaintext result",
 "Any straight-line program of the public operations, with verifications and openings at any points, run by three honest parties of the maliciously secure ABY3 protocol, never reports an error and opens at every party to the value that wrapping plaintext arithmetic gives. This holds for every supported ring width, vector length and chunk size, any number of verification rounds in one session, and every interleaving of parties and message delays.",
 ["programs","schedules","inputs","histories"],
 "all programs over the public operations with any placement of verifications and openings, widths 8 and 16 bits, all schedules",
 "Existing tests check one operation on one input and never verify several times in one session or interleave verified and unverified work; completeness of the checks over histories is not sampled.",
 ["iris-mpc/src/aby3_mal/protocol.rs","iris-mpc/src/aby3/utils.rs"],
 [("transcript hashes compared at verification","iris-mpc/src/aby3_mal/protocol.rs jmp_verify"),("triple sacrifice","iris-mpc/src/aby3_mal/protocol.rs get_mul_triple, dot_sacrifice")],
 ["results of verify and open* at each party"])

p("C05","SPDZ-wise accepts honest runs and opens the plaintext result",
 "Any straight-line program of the public operations, with verifications, openings, precomputation requests and MAC-key setup, run by three honest SPDZ-wise parties, never reports an error and opens at every party to the value that wrapping plaintext arithmetic gives. This holds however many AND gates were precomputed before, for every supported ring width, vector length and chunk size, any number of verification rounds in one session, and every interleaving of parties and message delays.",
 ["programs","schedules","inputs","histories"],
 "all programs over the public operations with any placement of verification, opening and precomputation, widths 8 and 16 bits, all schedules",
 "Existing tests verify once per session, with a fresh and exactly matching amount of precomputed triples; leftovers from earlier verifications, several rounds and mixed sizes are not sampled.",
 ["iris-mpc/src/spdzwise/protocol.rs","iris-mpc/src/spdzwise/triples.rs","iris-mpc/src/spdzwise/vecshare.rs"],
 [("batched MAC check","iris-mpc/src/spdzwise/protocol.rs verify_macs"),("cut-and-choose AND triples","iris-mpc/src/spdzwise/protocol.rs generate_triples, verify_triple_queue")],
 ["results of verify and open* at each party"])

p("C06","SWIFT3 accepts honest runs and opens the plaintext result",
 "Any straight-line program of the public operations, with verifications and openings at any points, run by three honest SWIFT3 parties, never reports an error and opens at every party to the value that wrapping plaintext arithmetic gives. This holds for every supported ring width, vector length and chunk size, any mix of multiplications, dot products of different lengths and comparisons between verifications, any number of verification rounds in one session, and every interleaving of parties and message delays.",
 ["programs","schedules","inputs","histories"],
 "all programs over the public operations with any placement of verifications and openings, any mix of gate kinds and dot-product lengths, all schedules",
 "Existing tests prove one batch of one kind per session and the larger ones are ignored for run time; several verification rounds, mixed batches and mixed dot-product lengths are never run.",
 ["iris-mpc/src/swift3/protocol.rs","iris-mpc/src/dzkp/and_proof.rs","iris-mpc/src/dzkp/mul_proof.rs","iris-mpc/src/dzkp/dot_proof.rs","iris-mpc/src/dzkp/polynomial.rs"],
 [("distributed zero-knowledge proofs over registered gates","iris-mpc/src/dzkp"),("jointly sent messages with hash cross-check","iris-mpc/src/swift3/protocol.rs jmp_verify")],
 ["results of verify and open* at each party"])

for (cid,name,files,mech,note) in [
 ("C07","Malicious ABY3",["iris-mpc/src/aby3_mal/protocol.rs"],[("triple sacrifice and hash comparison","iris-mpc/src/aby3_mal/protocol.rs"),("joint message passing","iris-mpc/src/aby3_mal/protocol.rs jmp_verify")],""),
 ("C08","SPDZ-wise",["iris-mpc/src/spdzwise/protocol.rs"],[("MAC check","iris-mpc/src/spdzwise/protocol.rs verify_macs"),("cut-and-choose","iris-mpc/src/spdzwise/protocol.rs verify_triples"),("joint message passing","iris-mpc/src/spdzwise/protocol.rs jmp_verify")],""),
 ("C09","SWIFT3",["iris-mpc/src/swift3/protocol.rs","iris-mpc/src/dzkp/and_proof.rs","iris-mpc/src/dzkp/mul_proof.rs","iris-mpc/src/dzkp/dot_proof.rs"],[("distributed zero-knowledge proofs","iris-mpc/src/swift3/protocol.rs and_verify, mul_verify, dot_verify"),("joint message passing","iris-mpc/src/swift3/protocol.rs jmp_verify")],"")]:
 p(cid,f"{name}: one cheating party can only cause an abort, never a wrong output",
 f"When at most one of three {name} parties deviates, by sending altered, malformed, missing, repeated or swapped messages or by computing on altered shares, every value that an honest party opens after its verification reported success is the correct plaintext value. Otherwise the honest party gets an error: it never outputs a wrong value, never panics, and never stays blocked once the deviating party's links are closed. This covers membership queries and programs of the public operations, from the beginning of the session setup to the final opening.",
 ["fault_sequences","programs","schedules","inputs"],
 "every choice of corrupted party; every finite sequence of alterations of the messages it sends or receives and of the shares it holds, at any positions of any program; every schedule (up to the protocol's statistical soundness error)",
 "No existing test lets any party deviate: all verification code is only ever run on honest transcripts, so removing or weakening a check passes every test.",
 files,mech,["results of verify, open* and iris_in_db at the two honest parties"])

p("C10","A party or link failing at any point yields errors, not wrong values or hangs",
 "If a party crashes or a link closes at any point of a session, in any of the four protocols, every operation another party completes successfully still has the correct plaintext result, and every other party finishes with a correct result or with an error; it neither panics nor waits forever on a closed link. A fresh session started afterwards by the three parties works normally.",
 ["crash_points","schedules","programs"],
 "every crash or link-closing point in every program or query, with queued messages of the failed party delivered or lost, under every schedule",
 "Existing tests never fail a party or close a link; error paths in the protocols (and the places that unwrap results) are not executed at all.",
 ["iris-mpc/src/iris/protocol.rs","iris-mpc/src/aby3/utils.rs","iris-mpc/src/aby3_mal/protocol.rs","iris-mpc/src/spdzwise/protocol.rs","iris-mpc/src/swift3/protocol.rs"],
 [("io errors propagate as results through every protocol step","iris-mpc/src/aby3/utils.rs and all protocols"),("verification error propagated by the query","iris-mpc/src/iris/protocol.rs iris_in_db")],
 ["outcome of each surviving party"])

p("C11","Session setup is a fair coin toss: committed before revealed, cheating rejected",
 "In the maliciously secure ABY3, SPDZ-wise and SWIFT3 protocols' session setup, the joint randomness is contributed by commitment: in ABY3-malicious and SWIFT3 no honest party discloses its contribution to a peer before it has received that peer's commitment, and a setup message altered, truncated, replaced or replayed by a peer makes the receiving honest party's setup or its next verification fail. After a setup that succeeds at all three parties in any protocol, shares drawn jointly are consistent, so that openings agree at all parties.",
 ["schedules","fault_sequences"],
 "every delivery order of the setup messages, every alteration of every setup message by one party, every resulting session",
 "Tests run setup honestly only; the order of sends against receives and the commitment check's reaction to a wrong opening are not observed by any test.",
 ["iris-mpc/src/aby3_mal/protocol.rs","iris-mpc/src/swift3/protocol.rs","iris-mpc/src/commitment/mod.rs","iris-mpc/src/aby3/protocol.rs"],
 [("commit, exchange, open, verify","iris-mpc/src/aby3_mal/protocol.rs setup_prf_from_seed; iris-mpc/src/swift3/protocol.rs setup_prf_from_seed"),("hash commitment","iris-mpc/src/commitment/mod.rs")],
 ["preprocess result at honest parties, order of network calls"])

p("C12","What a party receives before an opening does not depend on the secrets",
 "For any program of the public operations up to but not including an opening, the messages a party receives are distributed independently of the secret values it does not hold: with everything that party knows held fixed, changing the other parties' secrets does not change the distribution of any message it receives, nor of the difference of any two of them. This holds for all four protocols, and fresh sessions never reuse randomness.",
 ["inputs","programs","histories"],
 "all programs, all secret inputs, all observing parties; statistical over the other parties' randomness",
 "No test looks at message contents: leaving out a mask, or using the same mask twice, gives the same opened results, so every functional test still passes.",
 ["iris-mpc/src/aby3/protocol.rs","iris-mpc/src/aby3/random/prf.rs","iris-mpc/src/aby3_mal/protocol.rs","iris-mpc/src/spdzwise/protocol.rs","iris-mpc/src/swift3/protocol.rs","iris-mpc/src/swift3/random/prf.rs"],
 [("zero shares mask every reshared value","iris-mpc/src/aby3/protocol.rs mul, dot_many, and_many"),("masked inputs","input in each protocol")],
 ["messages delivered to one party in paired simulated runs"])

p("C13","The traffic pattern is independent of the secret data",
 "The sequence of messages (sender, receiver, length) that a session of any of the four protocols produces depends only on public parameters: the program, vector lengths, database size, chunk size and masks. Two sessions that differ only in secret inputs and in randomness exchange exactly the same sequence of message lengths on every link, including when the query result differs. (The length of SWIFT3's verification proofs may vary by the few bytes of zero leading coefficients of uniformly random polynomials, which their encoding leaves out; its distribution is the same for all secrets.)",
 ["inputs","programs","schedules"],
 "all pairs of secret inputs for every program or query, all randomness, all schedules",
 "Tests never compare two sessions or look at traffic; an early exit on a match or a value-dependent encoding changes no result.",
 ["iris-mpc/src/iris/protocol.rs","iris-mpc/src/aby3/utils.rs","iris-mpc/src/aby3/protocol.rs"],
 [("data-oblivious control flow and fixed-width encodings","all protocols")],
 ["per-link message length sequences in paired runs"])

p("C14","Channels deliver every message intact, in order, exactly once",
 "Messages handed to a channel or its handle are received by the peer byte for byte, in the order sent, each exactly once, on both directions independently, for raw bytes, typed and custom codecs, for empty to multi-megabyte messages and for any number of queued operations. This holds however reads and writes are split, delayed or interleaved by the transport, and each reported send success or receive result belongs to the operation it was returned for.",
 ["schedules","inputs","histories"],
 "every split of the byte stream into short reads and writes, every interleaving of the two directions and of queued operations, all message sizes up to the frame limit",
 "mpc-net has no tests of its own; examples send a few small messages over loopback.",
 ["mpc-net/src/channel.rs","mpc-net/src/codecs.rs"],
 [("job queues with one worker per direction","mpc-net/src/channel.rs ChannelHandle::manage"),("length-delimited framing","mpc-net/src/channel.rs Channel")],
 ["results of ChannelHandle::send/recv and of Channel as Sink/Stream"],hook="spawned channel workers run on the simulator (cfg vsim)")

p("C15","Broken streams and malformed frames surface as errors, never as data",
 "If a channel's stream ends, fails or is corrupted at any byte, every message completely received before that point is still delivered in order, no partial or altered message is ever delivered as valid typed data unless its bytes decode to it, and every receive that is pending when the stream ends or fails, and every later one, returns an error instead of blocking or panicking. A frame that cannot be decoded yields an error for its receive, however its bytes look, and never ends the process or demands memory out of proportion; complete well-formed frames behind it may still be delivered. A send that cannot reach the transport reports an error through its receipt, and closing a channel succeeds only if the peer closed without leaving unread messages.",
 ["crash_points","fault_sequences","schedules"],
 "every byte position for end-of-stream, I/O error or corruption, every interleaving with pending operations, both directions, all codecs",
 "mpc-net has no tests; error paths, end of stream inside a frame, and close with unread data are never executed.",
 ["mpc-net/src/channel.rs","mpc-net/src/codecs.rs"],
 [("read result mapped to an error when the stream ends","mpc-net/src/channel.rs ChannelHandle::manage"),("decode errors mapped to io errors","mpc-net/src/codecs.rs"),("close checks for unexpected data","mpc-net/src/channel.rs Channel::close")],
 ["results of pending and later operations after the fault"],hook="spawned channel workers run on the simulator (cfg vsim)")

p("C16","Connection setup pairs the right parties in any start order",
 "When all parties of a valid configuration start, in any order and with any delays, and the network eventually delivers packets, every party's connection setup completes and every party ends with exactly one connection to each other party, labelled with that party's id, so that data sent to an id arrives at the party with that id. This holds for two to several parties, under packet loss, duplication, reordering and delay; a configuration without the own id or with duplicate ids is refused with an error. A connection that announces an id which is not configured, is already connected or is not expected from a client makes the setup fail with an error instead of being paired; a server which cannot prove the identity configured for its id is refused; unreadable or malformed certificate or key files give an error.",
 ["schedules","fault_sequences","configurations"],
 "every start order and delay within the handshake timeout, every pattern of packet loss, duplication and reordering that eventually lets packets through, every set of party ids",
 "There is no automated test of connection setup; the examples use three parties on loopback with fixed ids.",
 ["mpc-net/src/lib.rs","mpc-net/src/config.rs"],
 [("lower id is server, client announces its id on a stream","mpc-net/src/lib.rs establish"),("id exchange on every bidirectional channel","mpc-net/src/lib.rs get_custom_channels")],
 ["establish result and cross-party echo of ids over the channels"],hook="endpoint creation through the simulator's sockets and clock (cfg vsim)")

p("C17","Party network: ordered intact delivery over a faulty packet network",
 "Over a packet network that loses, duplicates, reorders, delays and temporarily partitions, the parties' network layer delivers every message sent to a party id, from empty ones to many megabytes, to exactly that party, intact, exactly once and in sending order per sender, and broadcast returns every party's message indexed by its party id; an id that is not a peer's is refused with an error. Once faults stop, all pending operations complete within a bounded simulated time.",
 ["schedules","fault_sequences","histories"],
 "every pattern of loss, duplication, reordering, delay and partition shorter than the idle timeout, every history of sends, receives and broadcasts",
 "Protocol tests replace this layer by an in-memory network; examples run it on loopback without faults.",
 ["iris-mpc/src/aby3/network.rs","mpc-net/src/lib.rs","mpc-net/src/channel.rs"],
 [("one bidirectional reliable stream per pair","mpc-net/src/lib.rs get_custom_channels"),("id routing","iris-mpc/src/aby3/network.rs send, receive, broadcast")],
 ["results of NetworkTrait operations at each party"],hook="endpoint creation through the simulator's sockets and clock (cfg vsim)")

p("C18","A dead or unreachable peer is reported within bounded time",
 "If a peer process dies, closes its session or becomes unreachable for good, every receive pending on it at another party returns an error within the transport's idle timeout, whatever the party was doing, and never a fabricated message; a party that shuts down finishes its shutdown within bounded time, whether its peers are dead, unreachable, or alive and taking their messages or closing in turn. (A party that is still in connection setup waits without bound for a peer that never came up.)",
 ["crash_points","fault_sequences","schedules"],
 "every point of connection setup or traffic at which a peer dies or is cut off, every schedule",
 "No test covers dead peers or shutdown of the network layer.",
 ["mpc-net/src/lib.rs","mpc-net/src/channel.rs","iris-mpc/src/aby3/network.rs"],
 [("idle timeout and keep-alive of the transport","mpc-net/src/lib.rs establish"),("shutdown closes connections and waits for idle endpoints","mpc-net/src/lib.rs shutdown")],
 ["completion time and result of pending operations"],hook="endpoint creation through the simulator's sockets and clock (cfg vsim)")

p("C19","Finishing a session does not take back what the party already sent",
 "If a party has completed its protocol and finishes its session, everything it sent before is still delivered to its peers: a party that finishes early never makes a slower, healthy peer lose a result or report an error, for any relative speed of the parties and any packet delays or transient losses. Every party's finish then completes within bounded time.",
 ["schedules","fault_sequences"],
 "every relative speed of the parties around the last messages of a session, every packet delay, reordering and transient loss",
 "Tests use an in-memory network whose shutdown keeps queued messages; over real sockets on loopback the race is rarely lost.",
 ["mpc-net/src/lib.rs","iris-mpc/src/aby3/network.rs","mpc-net/src/channel.rs"],
 [("ordering of draining, closing and waiting at shutdown","mpc-net/src/lib.rs shutdown; iris-mpc/src/aby3/network.rs shutdown")],
 ["outcome at the slower parties"],hook="endpoint creation through the simulator's sockets and clock (cfg vsim)")

p("C20","Full stack: membership queries over a faulty network give the plaintext answer",
 "Three parties that run a membership query end to end, from connection setup through the protocol to finishing the session, over a packet network with loss, duplication, reordering, delays and short partitions, each obtain the plaintext answer; this holds for every chunk size, including ones whose openings take many megabytes. If a party crashes or becomes unreachable for good after connections are set up, the others obtain the plaintext answer or an error within bounded time.",
 ["schedules","fault_sequences","crash_points"],
 "every fault pattern that eventually lets packets through, every crash point, all protocols",
 "No test runs the protocols over the real network layer.",
 ["iris-mpc/src/iris/protocol.rs","iris-mpc/src/aby3/network.rs","mpc-net/src/lib.rs","mpc-net/src/channel.rs"],
 [("complete stack","iris-mpc and mpc-net")],
 ["iris_in_db and finish results at each party"],hook="endpoint creation through the simulator's sockets and clock (cfg vsim)")

p("C21","Dealer shares are one-party-private and interchangeable across sessions",
 "Shares dealt for a value open to that value when each party contributes the share dealt for its id, in any session and at any time, also after they were stored and reloaded in serialised form; any single party's share is distributed independently of the value.",
 ["inputs","histories","crash_points"],
 "all values and protocols, shares stored, parties restarted, and shares used in later sessions",
 "Tests deal and open in one session and never look at the distribution of one party's share or reload it.",
 ["iris-mpc/src/aby3/protocol.rs","iris-mpc/src/spdzwise/protocol.rs","iris-mpc/src/swift3/protocol.rs","iris-mpc/src/aby3/share.rs","iris-mpc/src/swift3/share.rs"],
 [("additive masking by the dealer","share in each protocol"),("serde representation of shares","share types")],
 ["open in a later session; distribution of dealt shares"])

p("C22","Plaintext reference matching follows its definition",
 "The plaintext reference decides a match exactly when the masked Hamming distance is below the threshold fraction of jointly unmasked bits.",
 ["inputs"],"all codes and masks","Tests sample a few random codes.",
 ["plain-reference/src/lib.rs"],[("bit counting","plain-reference/src/lib.rs")])
p("C23","Ring elements, bits and field polynomials satisfy their algebra",
 "Ring elements, bits and the extension fields and polynomials used in proofs obey their algebraic laws, and encode to and decode from bytes without loss.",
 ["inputs"],"all elements","Tests sample random elements.",
 ["iris-mpc/src/types/ring_element.rs","iris-mpc/src/types/bit.rs","iris-mpc/src/dzkp/polynomial.rs","iris-mpc/src/dzkp/gf2p64.rs"],[("arithmetic","iris-mpc/src/types, iris-mpc/src/dzkp")])
p("C24","Share databases are written all or nothing, durably, and answer as the plaintext",
 "When the dealer's tool (create_sample_data, any protocol) reports success, the database durably holds the requested items on top of what was there before, and what the three parties load from it are consistent shares of the stored codes (SPDZ-wise: with MACs under the one stored MAC key): opening them gives the codes, and a membership query on them the plaintext answer. If it fails, is killed or the machine loses power at any point, earlier content is intact, either all items of the run (with the MAC key) are there or none, and running it again completes the database. No share column alone shows the code. With a seed the codes are reproducible, without one codes and share randomness are fresh.",
 ["inputs","crash_points","histories"],
 "all protocols, item counts and seeds, earlier contents of the database, crash and power failure points, disk errors, full disks and lock conflicts",
 "The tool has no test; failures of the disk and crashes between its writes cannot be provoked by one.",
 ["iris-mpc/src/bin/create_sample_data.rs","iris-mpc/examples/aby3.rs","iris-mpc/examples/spdzwise.rs","iris-mpc/examples/swift3.rs"],
 [("transaction around the inserts and errors passed on","create_*_db"),("sharing of every bit by the protocol's own dealer","create_*_db: share(...)")],
 ["SQLite file contents, exit status, party programs' read_db"])

p("C25","Plaintext tools: data written all or nothing, matching answers or fails",
 "create_sample_data_plain, when it reports success, has durably added the requested number of distinct random iris codes; when it fails, is killed or power fails at any point, earlier codes are intact and either all new ones are there or none, and running it again completes the database. find_match says a match is found exactly when some code of the database is close to the probe (a similar copy of the first code, or a fresh code), whatever its position; if the database cannot be read completely it fails instead of answering wrongly.",
 ["inputs","crash_points","histories"],
 "all item counts and earlier contents, crash and power failure points, disk errors while writing and while matching, full disks and lock conflicts",
 "The tools have no tests; failures of the disk and crashes cannot be provoked by one.",
 ["plain-reference/src/bin/create_sample_data_plain.rs","plain-reference/src/bin/find_match.rs","plain-reference/src/lib.rs"],
 [("transaction around the inserts and errors passed on","create_sample_data_plain main"),("every row's error ends the matching","find_match main")],
 ["SQLite file contents, exit status, printed answer"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
