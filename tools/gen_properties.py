#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here, one dict per property)."""
import json, os
S = "secure-computation-library/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

TP = ["src/tp/circuits.h", "src/tp/circuits/online.cc", "src/tp/circuits/offline.cc", "src/tp/correlator.cc",
      "src/tp/correlator.h", "src/tp/fi_prep.cc", "src/tp/mult_gate.cc", "src/tp/mult_gate.h",
      "src/tp/input_gate.h", "src/tp/output_gate.h", "src/tp/gate.h"]
MSG = "every message each party sends or receives, seen at the Channel interface"

# ---------------------------------------------------------------- TurboPack
p("T01", "A full TurboPack run delivers the circuit's value to every output owner",
  "For every circuit built and closed through the public API, every admissible choice of parties n, threshold t and packing factor k (n = t+2(k-1)+1, t < n/2) and every assignment of inputs, when all parties run function-independent preprocessing, function-dependent preprocessing and the online phase, each party obtains for exactly the outputs it owns, in declaration order, the value of the circuit over the field. No party aborts. (Output gates are sinks: they are not operands of other gates, and a multiplication's operands come from earlier layers.)",
  ["programs", "inputs", "configurations"],
  "all circuits (any wiring of additions and multiplications across layers, partial and empty batches, several owners), all (n,t,k), all inputs",
  "The tests run a handful of fixed circuits with constant masks and one or two (n,t,k); the complete interactive preprocessing is run on one circuit shape.",
  TP, [("online phase", "src/tp/circuits/online.cc"), ("function-dependent preprocessing", "src/tp/correlator.cc"), ("function-independent preprocessing", "src/tp/fi_prep.cc")],
  observe=[MSG, "Circuit::GetOutputs of every party"])
p("T02", "Party scheduling never changes the outcome, blocks the run or leaves data unread",
  "Under every interleaving of the parties' steps allowed by reliable in-order channels, all parties finish the preprocessing and the online phase, the messages exchanged and the outputs are the same as in the lock-step order, and when all have finished every message sent has been received. This includes a party whose sending and receiving halves of the function-independent phase run concurrently, as the benchmark does.",
  ["schedules", "programs"],
  "all interleavings of n parties at message granularity, for any circuit",
  "The tests drive all parties from one thread in a single fixed lock-step order, so no other interleaving is ever executed.",
  TP, [("per-channel FIFO order and matching send/receive counts", "src/tp/circuits/online.cc, src/tp/correlator.cc, src/tp/fi_prep.cc")],
  observe=[MSG, "channel contents after the run"])
p("T03", "The online phase only ever reveals value minus mask, consistently for every wire",
  "For every wire whose masked value the first party learns, that masked value plus the wire's preprocessed mask equals the wire's value in the circuit. For every batch of multiplications the first party hands out sharings, of degree below the packing factor, of exactly the masked operands (zero in padding slots), and the shares returned for the batch reconstruct to the masked products.",
  ["programs", "inputs", "configurations"],
  "every wire and every batch of every run",
  "Tests look only at final outputs, almost always with equal constant masks, so a wrong internal wire that cancels out, or a wrong padding slot, passes.",
  ["src/tp/mult_gate.cc", "src/tp/input_gate.h", "src/tp/output_gate.h", "src/tp/gate.h", "src/tp/circuits/online.cc"],
  [("masked evaluation", "src/tp/mult_gate.cc"), ("masked inputs/outputs", "src/tp/input_gate.h, src/tp/output_gate.h")],
  observe=[MSG, "Gate::GetMu at the first party"])
p("T04", "The online phase is correct for any assignment of dummy masks",
  "When preprocessing is replaced by dummy masks, whether all zero, one constant for all wires, or an arbitrary mask per input and per multiplication wire, and whether it is installed directly in the batches or through a dummy correlator, the online phase still delivers the circuit's value to every output owner.",
  ["inputs", "programs", "configurations"],
  "all mask assignments, all circuits, all parties and packing factors",
  "Tests use one constant for all masks; with equal masks a share taken at the wrong evaluation point is indistinguishable from the right one.",
  ["src/tp/circuits/offline.cc", "src/tp/mult_gate.h", "src/tp/input_gate.h", "src/tp/output_gate.h"],
  [("dummy preprocessing", "src/tp/circuits/offline.cc"), ("per-batch preprocessing from masks", "src/tp/mult_gate.h")],
  observe=["Circuit::GetOutputs of every party", MSG])
p("T05", "Function-independent preprocessing produces valid correlated randomness",
  "After the function-independent phase the parties hold, for every input and multiplication wire, a sharing of degree at most n-k carrying one mask in all k slots; for every multiplication batch, packed sharings a, b, c with c equal to a times b in every slot; and sharings of zero in all k slots for each batch that needs one. There are enough of each for the circuit, whatever its size.",
  ["programs", "configurations", "inputs"],
  "all circuit sizes (including amounts that are not multiples of the extraction width t+1) and all (n,t,k)",
  "The tests never inspect the correlations themselves and use few batch counts; errors that cancel in the tested circuits are invisible.",
  ["src/tp/fi_prep.cc", "src/tp/correlator.h"],
  [("dealing and extraction", "src/tp/fi_prep.cc"), ("triple multiplication", "src/tp/fi_prep.cc")],
  observe=[MSG, "Circuit::GetCorrelator public maps"])
p("T06", "Function-dependent preprocessing ties the correlations to the wires",
  "After function-dependent preprocessing, each party that owns an input or an output knows exactly the masks of the wires it owns; additions carry the sum of their operands' masks and outputs the mask of the wire they expose. For each multiplication batch the openings received by the first party reconstruct, slot by slot, to operand mask plus triple factor, and what it hands back is a sharing of exactly those values.",
  ["programs", "inputs", "configurations"],
  "every wire and every batch of every circuit",
  "Tests only see whether the final output is right for a few wirings; they do not observe masks, openings or batches.",
  ["src/tp/correlator.cc", "src/tp/correlator.h", "src/tp/circuits/offline.cc", "src/tp/output_gate.h", "src/tp/gate.h"],
  [("mapping of correlations to gates", "src/tp/circuits/offline.cc"), ("mask openings", "src/tp/correlator.cc")],
  observe=[MSG, "Circuit::GetCorrelator public maps"])
p("T07", "No correlated randomness is consumed twice in a TurboPack run",
  "Within one run, every mask sharing, triple and zero sharing taken from the preprocessing is assigned to one wire or one batch (and one role within it) and to no other, and every product opened to the first party while triples are made is hidden by a random mask used for nothing else, even though reuse would leave all outputs correct.",
  ["programs", "configurations", "histories"],
  "all pairs of wires and batches of every run",
  "Reuse leaves every output correct, so no output-checking test can see it.",
  ["src/tp/correlator.h", "src/tp/fi_prep.cc", "src/tp/circuits/offline.cc"],
  [("consumption counters", "src/tp/correlator.h"), ("splitting of the zero sharings", "src/tp/fi_prep.cc")],
  observe=["Circuit::GetCorrelator public maps", MSG])
p("T08", "Sharings dealt in preprocessing hide their secrets from any t parties",
  "Every sharing a party deals in the function-independent phase is a polynomial whose coefficients beyond those fixed by its prescribed slots are freshly drawn: it has the full prescribed degree, no t of the shares determine the secret, and no two dealt sharings of a run by the same party share randomness. Correlations are combined from all n parties' sharings so that t of them cannot fix the result.",
  ["inputs", "configurations", "histories"],
  "every sharing dealt in every run, all (n,t,k)",
  "Low-degree or repeated sharings leave every output correct; secrecy is not visible in outputs.",
  ["src/tp/fi_prep.cc", S+"include/scl/ss/packed.h", "src/tp/correlator.h"],
  [("degrees and fresh randomness of dealings", "src/tp/fi_prep.cc"), ("extraction matrix", "src/tp/correlator.h")],
  observe=[MSG])
p("T09", "Everything opened during TurboPack is blinded by a fresh sharing of zero",
  "Each vector of shares sent to one party for reconstruction (mask openings to owners and to the first party, product openings, online products) equals the bare computed sharing plus a sharing of zero of degree n-1 used for no other opening, so it reveals nothing beyond the reconstructed slots; what is reconstructed of a product in the function-independent phase is the product plus a random mask of its own. Parties send nothing to anybody other than what the protocol step prescribes.",
  ["programs", "configurations"],
  "every opening of every run",
  "Dropping or repeating the blinding term leaves all outputs right.",
  ["src/tp/correlator.cc", "src/tp/fi_prep.cc", "src/tp/mult_gate.cc"],
  [("zero sharings added before sending", "src/tp/correlator.cc, src/tp/fi_prep.cc")],
  observe=[MSG])
p("T10", "TurboPack sends exactly what it should: constant per multiplication online",
  "Over a whole run, whatever the inputs and the schedule, all parties together send in the online phase exactly 3n values per batch of multiplications, one value per input and one per output (fewer than 12 values per multiplication for full batches and n = 2t+1, however many parties there are), in the function-dependent phase 4n values per batch of multiplications and n per batch of inputs or outputs, and in the function-independent phase the closed-form number of dealt and opened values that the circuit's size, n, t and k determine. With dummy preprocessing nothing is sent before the online phase. (A party's values to itself are counted.)",
  ["programs", "inputs", "configurations", "schedules"],
  "every circuit, every (n,t,k), every phase",
  "Tests never count messages; an extra or a merged message that both ends agree on leaves every output right.",
  TP, [("online phase", "src/tp/circuits/online.cc"), ("preprocessing", "src/tp/circuits/offline.cc")], observe=[MSG])
# ---------------------------------------------------------------- programs
p("E01", "The programs run to the end with the right result, all parties at once",
  "For every n = 4m+1 > 4, every even width and every depth, when ours.x (or dn07.x) is started for the ids 0 to n-1 in any order and at any time with the same number of parties, size = width x depth and depth, every party's program connects, runs all phases and exits with status 0 whatever the interleaving of the parties and of their threads; the result the first party checks is right; every byte sent is received and no socket stays open; each party sends each other exactly the bytes that the protocol prescribes. With fewer than four arguments a program prints its usage, and with an id not smaller than the number of parties it refuses, in both cases without connecting to anybody.",
  ["configurations", "schedules"],
  "all numbers of parties, widths and depths, all orders and delays of starting, all interleavings of processes and threads",
  "No test runs the programs, and protocol tests use in-memory channels on one thread.",
  ["experiments/ours.cc", "experiments/dn07.cc", "src/tp/circuits/offline.cc", "src/tp/circuits/online.cc", "src/tp/dn07.cc", "secure-computation-library/src/scl/net/network.cc"],
  [("phases and their threads", "experiments/ours.cc, experiments/dn07.cc"), ("network among processes of one host", "secure-computation-library/src/scl/net/network.cc")],
  observe=["exit status", "bytes written to and read from the sockets"])
p("P01", "A protocol of steps runs every step once, in order, on one context",
  "For every chain of protocol steps, evaluating its first step runs each step exactly once and in order, each on the same context object as its predecessors left it, passing on what each step returns without copying it, and returns what the last step's finalisation returns. If a step fails the failure reaches the caller and no later step runs. A step may itself evaluate another chain on the same context.",
  ["programs"],
  "all chains, payloads and failures",
  "The test evaluates one chain of two steps.",
  [S+"include/scl/p/simple.h"], [("recursive evaluation", S+"include/scl/p/simple.h")], observe=["scl::Evaluate"])
# ---------------------------------------------------------------- DN07
DN = ["src/tp/dn07.h", "src/tp/dn07.cc"]
p("D01", "A DN07 run delivers the circuit's value to every output owner",
  "For every circuit, every t with n = 2t+1 parties and all inputs, after the (dummy or interactive) preprocessing and the online phase every owner obtains for each of its outputs the circuit's value over the field, under any interleaving of the parties. All messages sent are received and no party aborts.",
  ["programs", "inputs", "configurations", "schedules"],
  "all circuits, all t, all inputs, all interleavings",
  "Tests run a few fixed circuits in lock-step order.",
  DN, [("protocol steps", "src/tp/dn07.cc")], observe=[MSG, "DN07::GetOutput"])
p("D02", "DN07 preprocessing yields matching double sharings, each used once",
  "After interactive preprocessing each input wire has its own random sharing of degree t, and each multiplication its own pair of sharings, of degree t and degree 2t, of one same random value; none is used for two wires. Every dealt sharing has exactly its full degree and fresh randomness.",
  ["programs", "configurations", "histories"],
  "all circuits and sizes, all t",
  "Tests see only outputs, which stay right under reuse or low-degree sharings.",
  DN, [("double sharing generation and mapping", "src/tp/dn07.cc")], observe=[MSG])
p("D03", "DN07 opens only blinded values and moves every wire's sharing correctly",
  "For every input, the owner reconstructs the wire's random mask and hands out a degree-t sharing of the input minus the mask that is zero for the last t parties; for every multiplication, the first party reconstructs the product minus the pair's random value and hands out a sharing of it of the same form. After each step the parties' shares of every wire lie on a polynomial of degree t whose secret is the wire's value, and only the prescribed parties send and receive.",
  ["programs", "inputs", "configurations"],
  "every wire of every run",
  "Tests look at final outputs only.",
  DN, [("input, multiplication and output steps", "src/tp/dn07.cc")], observe=[MSG])
# ---------------------------------------------------------------- circuits
CI = ["src/tp/circuits.h", "src/tp/circuits/building.cc", "src/tp/circuits/cleartext.cc", "src/tp/circuits/generic.cc"]
p("C01", "Clear evaluation is the meaning of the circuit, for every setting of the inputs",
  "For every circuit and every setting of the inputs, clear evaluation yields for each output the value obtained by applying the additions and multiplications to the inputs, per client in declaration order and in overall declaration order for the flat form. Setting new inputs and evaluating again yields the values for the new inputs.",
  ["programs", "inputs", "histories"],
  "all circuits, all inputs, all sequences of input settings and evaluations",
  "Tests evaluate each circuit once on a few inputs.",
  CI + ["src/tp/gate.h", "src/tp/mult_gate.h", "src/tp/output_gate.h", "src/tp/input_gate.h"],
  [("clear evaluation", "src/tp/circuits/cleartext.cc")], observe=["Circuit::GetClearOutputs", "Circuit::GetClearOutputsFlat"])
p("C02", "Batching places every gate exactly once and reports true circuit metrics",
  "After construction, every client's inputs and outputs and every layer's multiplications are split, in order, into batches of exactly k, padding only the last batch of each group, each client and layer having at least one batch. The reported depth, width, size, numbers of inputs, outputs and batches, and gate lookups by owner, layer and index agree with what was added.",
  ["programs", "configurations"],
  "all construction sequences, all packing factors and client counts",
  "Tests check a few counts on a few circuits.",
  CI + ["src/tp/input_gate.h", "src/tp/mult_gate.h", "src/tp/output_gate.h"],
  [("layers and batches", "src/tp/mult_gate.h, src/tp/input_gate.h, src/tp/output_gate.h")],
  observe=["Circuit metrics and gate getters"])
p("C03", "Misuse of a circuit is refused with an error and leaves it usable",
  "Attaching a network before the circuit is closed, creating preprocessing before a network is attached, a threshold that does not satisfy n = t+2(k-1)+1 and t < n/2, wrong numbers of clients or inputs (except for the flat form of the clear inputs, which documents that it does not check), reading a masked or clear value that is not available, overfilling a batch or giving it another owner's gate, and inconsistent synthetic-circuit parameters are all refused by an exception. A refused call changes nothing: the same object then behaves as if it had not been made.",
  ["histories", "configurations"],
  "all sequences of valid and invalid calls",
  "Tests exercise single invalid calls and never what follows them.",
  CI + ["src/tp/correlator.h", "src/tp/dn07.h"], [("argument checks", "src/tp/circuits.h, src/tp/circuits/*.cc, src/tp/correlator.h")],
  observe=["exceptions thrown by the public API", "later results"])
p("C04", "The synthetic circuit generator builds the circuit its parameters describe",
  "For every valid parameter set the generated circuit has the given inputs and outputs per party, depth and width, pairs neighbouring wires of the previous layer (wrapping over the inputs in the first layer) into x*(x+y) and y*(x+y), and assigns the last layer's gates to outputs cyclically in party order. Its clear evaluation is that function of the inputs.",
  ["configurations", "inputs"],
  "all valid parameter sets",
  "Tests compare one or two parameter sets.",
  ["src/tp/circuits/generic.cc"], [("generator", "src/tp/circuits/generic.cc")], observe=["Circuit metrics, gates and clear outputs"])
# ---------------------------------------------------------------- network
NET = S + "include/scl/net/"
NSRC = S + "src/scl/net/"
p("N01", "A channel delivers exactly the bytes sent, once and in order",
  "For every kind of channel (in-memory, self-connecting, TCP, asynchronous-sender) and every way of cutting the two directions into send and receive calls, including empty and very large ones and calls from both ends at once, the bytes received are exactly the bytes sent, in order, with none lost, duplicated or altered, and the two directions do not disturb each other. A receive completes only with all the bytes it asked for.",
  ["histories", "inputs", "schedules"],
  "all sequences of sends and receives of any sizes on both ends",
  "Tests send a few small fixed messages with matching receive sizes.",
  [NET+"channel.h", NET+"mem_channel.h", NET+"tcp_channel.h", NET+"threaded_sender.h", NSRC+"mem_channel.cc", NSRC+"tcp_channel.cc", NSRC+"threaded_sender.cc"],
  [("in-memory buffering", NSRC+"mem_channel.cc"), ("partial reads/writes", NSRC+"tcp_channel.cc")], observe=["Channel::Send/Recv"])
p("N02", "The shared queue is a linearizable FIFO with no lost wake-up",
  "Under every interleaving of any number of threads inserting and removing, each element is removed exactly once, in insertion order, every removal waits while the queue is empty and none stays blocked while an element is available, and the reported size is the size at some moment during the call.",
  ["schedules", "histories"],
  "all thread interleavings, all mixes of operations",
  "The queue is only exercised indirectly with one producer and one consumer under the default scheduler.",
  [NET+"shared_deque.h"], [("mutex and condition variable", NET+"shared_deque.h")], observe=["SharedDeque operations"])
p("N03", "Closing an asynchronous channel loses nothing that was sent",
  "On a channel with a background sender, a send call returns without waiting for the peer and every byte accepted before the channel is closed or destroyed reaches the peer, in order, before the peer sees the end of the stream. Closing returns once the connection has taken everything or the peer is gone, and may be repeated; destroying the channel closes it.",
  ["schedules", "histories"],
  "all interleavings of caller, background sender and peer; any number of queued messages when closing",
  "The test waits for the peer to receive a message before closing, so closing with queued data is never exercised.",
  [NET+"threaded_sender.h", NSRC+"threaded_sender.cc"], [("sender loop and close", NSRC+"threaded_sender.cc")], observe=["bytes read by the peer", "return of Close"])
p("N04", "Network setup connects every pair of parties, whatever the start order",
  "For every number of parties, every start order and delay, creating the network terminates at every party with one working two-way connection to each other party, indexed by that party's id, and a self-connection for itself; a message sent to party j is received by party j as coming from the sender. In a network with threaded senders no send waits for the receiver. The in-memory and mock networks obey the same indexing.",
  ["schedules", "configurations"],
  "all party counts and start orders",
  "Tests use three parties started together.",
  [NSRC+"network.cc", NSRC+"tcp_utils.cc", NET+"network.h"], [("connect to lower ids, accept higher ids", NSRC+"network.cc")], observe=["Network::Party(i)->Send/Recv at all parties"])
p("N05", "Discovery hands every party the same complete table of all parties",
  "For every number of parties and every order in which clients announce themselves, the discovery server and all clients end with the same table, listing each party's id once with the host and port it announced, and each party's own id marks itself. Announcements with an id outside the range, and answers that are not a consistent table, are refused.",
  ["schedules", "inputs", "fault_sequences"],
  "all announcement orders, party counts and malformed announcements",
  "Tests use three parties in two orders.",
  [NSRC+"discovery/server.cc", NSRC+"discovery/client.cc"], [("collection and distribution of the table", NSRC+"discovery/server.cc")], observe=["NetworkConfig returned to each party"])
p("N06", "Network configurations are accepted only if well formed, lookups go by id",
  "Loading a configuration accepts the files that give every id from 0 to n-1 once with a host name and a port, with the own id among them, and refuses files whose ids, host names or ports are missing, malformed, out of range or repeated; looking a party up by id yields that party's host and port, whatever the order of the lines.",
  ["inputs"],
  "all configuration files",
  "Tests use a handful of fixed files.",
  [NSRC+"config.cc", NET+"config.h"], [("parsing and validation", NSRC+"config.cc")], observe=["NetworkConfig::Load, Parties, GetParty"])
p("N07", "Typed messages round-trip and oversized ones are refused",
  "Every value, vector and matrix of any element type sent over a channel is received equal to what was sent, with sequences of messages of different kinds staying in step. A vector or matrix whose announced size exceeds the configured limit is refused before anything is allocated or read for it, whatever sizes a malicious peer announces; sizes up to the limit are accepted.",
  ["inputs", "histories"],
  "all sequences of typed messages, all announced sizes",
  "Tests send one message of each kind and announce one oversized length.",
  [NET+"channel.h", S+"include/scl/math/vec.h", S+"include/scl/math/mat.h"], [("length prefixes and limits", NET+"channel.h")], observe=["Channel typed Send/Recv"])
p("N08", "A receive never invents data when the peer is gone",
  "If the peer closes the connection or the connection fails before all requested bytes have arrived, a receive reports an error instead of returning as if it had succeeded; bytes sent before the close are still delivered. Sending on a closed connection reports an error or has no effect and never terminates the process. A channel that has been closed leaves other connections alone.",
  ["crash_points", "histories"],
  "the peer closing after any number of bytes",
  "No test closes a peer in the middle of a message.",
  [NSRC+"tcp_channel.cc", NSRC+"tcp_utils.cc", NSRC+"threaded_sender.cc"], [("end-of-stream handling", NSRC+"tcp_channel.cc")], observe=["Channel::Recv/Send results"])
# ---------------------------------------------------------------- secret sharing
SS = S + "include/scl/ss/"
p("S01", "Any t+1 Shamir shares reconstruct the secret; t shares are independent of it",
  "For every field, secret, threshold t and number of shares n > t, every t+1 of the n shares (with their evaluation points) reconstruct the secret, shares of sums are sums of shares, and the sharing polynomial has degree at most t with t freshly drawn coefficients, so that over the randomness any t shares are uniformly distributed whatever the secret.",
  ["inputs", "configurations"],
  "all fields, secrets, t, n, subsets and randomness",
  "Tests use fixed secrets, t and the first shares.",
  [SS+"shamir.h", SS+"poly.h"], [("share generation and interpolation", SS+"shamir.h")], observe=["Shamir share/reconstruct API"])
p("S02", "Error-detecting reconstruction never returns a wrong secret",
  "With 2t+1 shares of which at most t are wrong in any way, error-detecting reconstruction returns the right secret or reports an error, and it never reports an error when all shares are right.",
  ["inputs", "fault_sequences"],
  "all error patterns of weight at most t, all positions and values",
  "Tests corrupt one fixed share.",
  [SS+"shamir.h"], [("consistency check of surplus shares", SS+"shamir.h")], observe=["error-detecting reconstruction"])
p("S03", "Robust reconstruction corrects any t wrong shares out of 3t+1",
  "With 3t+1 shares of which at most t are wrong in any way, robust reconstruction returns the right secret (and the error positions it reports are the wrong shares), and with more errors than it can correct it reports failure or a polynomial close to the shares, never terminates abnormally.",
  ["inputs", "fault_sequences"],
  "all error patterns of weight at most t, all positions and values, all t",
  "Tests corrupt fixed positions for one t.",
  [SS+"shamir.h", S+"include/scl/math/la.h", SS+"poly.h"], [("Berlekamp-Welch decoding", SS+"shamir.h")], observe=["robust reconstruction"])
p("S04", "Packed sharings place and recover each secret in its slot",
  "For every vector of secrets and every degree at least the number of secrets minus one, the packed sharing polynomial has at most that degree, takes the secrets at the points 0,-1,-2,..., any degree+1 shares determine all secrets and the sharing is linear; surplus coefficients are freshly drawn, and a single secret can be placed and recovered at any chosen point. Polynomials in evaluation form evaluate, add and subtract like the polynomials they represent, and refuse incompatible operands.",
  ["inputs", "configurations"],
  "all secrets, degrees, share counts and evaluation points",
  "Tests use fixed secrets and degrees.",
  [SS+"packed.h", SS+"evpoly.h"], [("packing in evaluation form", SS+"packed.h")], observe=["packed sharing API"])
p("S05", "Additive sharings sum to the secret and all but one share are free",
  "For every ring or field, secret and number of shares n >= 1, the n shares sum to the secret, sharing is linear, and over the randomness any n-1 shares are uniform whatever the secret; asking for zero shares is refused.",
  ["inputs", "configurations"],
  "all secrets, share counts and randomness",
  "Tests check one sharing.",
  [SS+"additive.h"], [("additive sharing", SS+"additive.h")], observe=["additive sharing API"])
# ---------------------------------------------------------------- maths
MA = S + "include/scl/math/"
p("M01", "Polynomial arithmetic obeys the polynomial ring laws",
  "For all polynomials over a field: evaluation is a ring homomorphism for addition, subtraction and multiplication; division yields quotient and remainder with p = q*d + r and deg r < deg d; degrees, leading terms and coefficients are those of the normalised polynomial (no leading zeros); division by zero is refused.",
  ["inputs"], "all polynomials of any degree, including zero and constants",
  "Tests use a few fixed polynomials.",
  [SS+"poly.h"], [("coefficient arithmetic", SS+"poly.h")], observe=["polynomial API"])
p("M02", "Linear systems are solved exactly when uniquely solvable",
  "For every square system over a field, the solver reports a solution exactly when the system has a unique one, and that solution satisfies the system; elimination yields the row-equivalent reduced row echelon form of any matrix (so that reducing a matrix next to the identity inverts it exactly when it is invertible).",
  ["inputs"], "all matrices, including singular ones and those needing row exchanges",
  "Tests use a few fixed matrices over one field.",
  [MA+"la.h", MA+"mat.h"], [("Gauss-Jordan elimination", MA+"la.h")], observe=["linear-algebra API"])
p("M03", "Vectors and matrices behave as mathematical vectors and matrices",
  "For all sizes and element types, entry-wise operations, scalar operations, inner products, sums, transposes, products, sub-ranges, stacking, resizing and comparisons give the mathematically defined result, leave their operands unchanged unless in-place, agree between the in-place and the copying form, and refuse incompatible sizes. Writing to bytes and reading back yields an equal object.",
  ["inputs", "histories"], "all shapes (including empty, 1xn and non-square), all entries",
  "Tests use one or two small fixed shapes.",
  [MA+"vec.h", MA+"mat.h"], [("container operations", MA+"vec.h, include/scl/math/mat.h")], observe=["vector and matrix API"])
p("M04", "The two Mersenne fields implement exact modular arithmetic",
  "For all elements, addition, subtraction, multiplication, negation, inversion and division are those of the integers modulo 2^61-1 and 2^127-1, results are always in canonical form so that equality is equality of residues, integers of any sign map to their residue, and inverting zero is refused.",
  ["inputs"], "all operand pairs, in particular the boundary values around 0, p and the carry positions",
  "Tests check a few fixed and random values.",
  [S+"src/scl/math/fields/mersenne61.cc", S+"src/scl/math/fields/mersenne127.cc", MA+"ff.h", MA+"fields/details.h"],
  [("field arithmetic", S+"src/scl/math/fields/*.cc")], observe=["field operators"])
p("M05", "Field elements survive every encoding and every decoding is canonical",
  "Writing a field element to bytes, text or a stream and reading it back yields the same element; decoding any byte string of the right length, or any hexadecimal text of a value that fits the representation, yields a canonical residue of the encoded integer; malformed text is refused; randomly sampled elements are canonical and determined by the generator.",
  ["inputs"], "all elements, byte strings and texts",
  "Tests encode a few values, none of them at or above the modulus.",
  [MA+"ff.h", S+"src/scl/math/str.cc", S+"src/scl/math/fields/mersenne61.cc", S+"src/scl/math/fields/mersenne127.cc"],
  [("encodings", MA+"ff.h")], observe=["Read/Write/FromString/ToString/Random"])
p("M06", "Ring elements compute modulo 2^k for every supported k",
  "For every bit width k the ring supports, arithmetic, comparison, inversion of odd elements, sampling and byte encoding are those of the integers modulo 2^k, with equality depending only on the low k bits; inverting an even element is refused, and encoding uses exactly the advertised number of bytes.",
  ["inputs", "configurations"], "all widths, all elements including wrap-around values",
  "Tests use two widths and a few values.",
  [MA+"z2k.h", MA+"z2k/details.h"], [("arithmetic and masking", MA+"z2k.h")], observe=["ring API"])
p("H01", "Hashing equals SHA-3 of the concatenated input, however it is cut into updates",
  "For every supported digest length and every byte sequence, the digest equals the SHA-3 digest of the whole sequence, independent of how it is split into update calls and of the calls' order relative to object copies.",
  ["inputs", "histories"], "all byte strings, all ways of splitting them",
  "Tests hash strings whose bytes are equal or that are short, in one way.",
  [S+"include/scl/hash.h", S+"src/scl/hash.cc"], [("absorption and Keccak permutation", S+"include/scl/hash.h, src/scl/hash.cc")], observe=["Hash update/finalize"])
p("R01", "The generator is a deterministic keystream that never repeats itself",
  "The output of the generator depends only on the seed and on the number of blocks drawn before, equals the AES-128 counter-mode keystream of the seed, is reproduced by any generator with the same seed and call sequence or after a reset, and no keystream block is handed out twice between resets, whatever the sizes of the requests.",
  ["inputs", "histories"], "all seeds and all sequences of request sizes and resets",
  "Tests compare one or two requests of fixed sizes.",
  [S+"include/scl/prg.h", S+"src/scl/prg.cc"], [("AES-CTR", S+"src/scl/prg.cc")], observe=["PRG::Next/Fill/Reset"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
