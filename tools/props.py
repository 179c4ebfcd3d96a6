import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    P.append(d)
BH="build tag verif makes the batch size of 2^20 points adjustable, so small files span several batches"
p("C01","Honest phase 1 ceremonies always verify",
 "A phase 1 file made by initialization (or by converting a Powers of Tau file) followed by one or more contributions is accepted by phase 1 verification against the same starting point, and each of those commands succeeds. This holds for every supported power, every number of contributions and every value of the contributors' randomness.",
 ["inputs","histories","configurations"],"every power 1..26, every chain length, every starting point (fresh or converted file), every batch layout, every draw of the random secrets",
 "The tests run one chain of four contributions at powers 9 and 12, all in a single batch and from a fresh start; the converted start has no working test.",
 ["phase1/phase1.go","phase1/utils.go","phase1/contribution.go","common/keypair.go"],
 [("chain of records, each proved against the previous hash","phase1.Contribute / phase1.Verify"),("random linear combination over batches","phase1/utils.go linearCombinationG1/G2")],
 ["exit status / error of verify and contribute"],hook=BH)
p("C02","A phase 1 contribution multiplies every parameter by the right secret power",
 "Initialization writes tau = alpha = beta = 1 in every parameter. A contribution with secrets t, a, b turns the i-th element of the four sections and beta in G2 into exactly t^i, a*t^i, b*t^i, t^i and b times the previous value, increments the contribution counter, keeps all earlier contribution records byte for byte, and appends one record with the new values, proofs of knowledge bound to the previous record's hash, and the SHA-256 of the record.",
 ["inputs","histories"],"every input file, power, position in a section, batch layout and secret",
 "The tests never look inside a file, and their verifier at the base commit did not examine the parameters at all.",
 ["phase1/phase1.go","phase1/utils.go","phase1/contribution.go","phase1/header.go","common/keypair.go"],
 [("running power across batches","phase1/utils.go scaleG1/scaleG2"),("copy of previous records","phase1.Contribute")],
 ["bytes of the output file"],[dict(name="ph1 file",meaning="header, tau/alpha/beta powers in G1, tau powers in G2, beta in G2, contribution records",where="docs/Format.md, phase1.Initialize")],BH)
p("C03","Phase 1 verification rejects parameters that are not one ceremony's powers",
 "If phase 1 verification accepts a file, then its parameters are exactly the powers of one tau, alpha times them and beta times them, starting at the generators, in G1 and in G2, with the tau, alpha and beta of the last contribution record. Any other parameters - one altered point anywhere, a rescaled section or tail, different exponents in G1 and G2, points off the curve or outside the group - are rejected.",
 ["inputs","configurations"],"every file content, every position of the alteration (including across batch boundaries), every batch layout",
 "Tests feed the verifier valid files only; no test expects a rejection.",
 ["phase1/phase1.go","phase1/utils.go","common/utils.go"],
 [("random linear combinations and pairing checks","phase1.Verify"),("first element anchors","phase1.Verify"),("subgroup checks in the decoder","bn254.Decoder")],
 ["verdict of verify"],hook=BH)
p("C04","Phase 1 verification rejects broken or forged contribution transcripts",
 "Phase 1 verification accepts a file only if every contribution record is an update of the record before it (the first one of the chosen starting point) by nonzero secrets whose knowledge is proved under the previous record's hash, with matching updates in G1 and G2, and carries its own correct hash. Dropping, reordering, duplicating, replacing or degenerating a record, or verifying against another starting point, leads to rejection.",
 ["inputs","histories"],"every transcript of every length, every record position, every starting point",
 "No test expects a rejection.",
 ["phase1/utils.go","phase1/phase1.go","phase1/contribution.go","common/keypair.go"],
 [("per record pairing and hash checks","phase1/utils.go verifyContribution"),("starting point","phase1/contribution.go defaultContribution")],
 ["verdict of verify"])
p("C05","Conversion of a Powers of Tau file keeps the exact prefix of the parameters",
 "Converting a Powers of Tau challenge file of power p to a power q <= p yields a phase 1 file with no contributions whose parameters are exactly the first elements of the input's sections (2*2^q-1 for tau in G1, 2^q for the others, and beta in G2). Contributions on top of it verify against that converted file. If the stated power isn't the file's, conversion fails.",
 ["inputs","configurations"],"every pair of powers q <= p and every input content",
 "The only test needs a file that isn't in the repository and fails.",
 ["phase1/phase1.go","phase1/utils.go","phase1/contribution.go"],
 [("section offsets","phase1.Transform, phase1/contribution.go defaultContribution")],["bytes of the output file","verdict of verify"])
p("C06","Phase 2 initialization encodes exactly the given circuit",
 "For every circuit that fits, phase 2 initialization writes the header with the circuit's counts, delta = 1, the vanishing polynomial elements tau^i*(tau^n-1) in the prover's order, and for every wire the Groth16 values A, B and beta*A+alpha*B+C at the ceremony's tau, alpha and beta, divided into private, public and committed wires as gnark's own setup divides them. All constraints count, including those the circuit stores in lazy form.",
 ["inputs","programs"],"every circuit (wire kinds, repeated and special coefficients, unused wires, lazily stored constraints, any number of constraints) and every phase 1 output",
 "Tests use MiMC circuits only and check at most that one valid proof verifies.",
 ["phase2/phase2.go","phase2/utils.go","phase2/lagrange.go","lagrange/g1.go","lagrange/g2.go"],
 [("Lagrange basis conversion","lagrange.ConvertG1/G2"),("accumulation per wire","phase2/utils.go accumulateG1/G2"),("split of wires","phase2/utils.go filterL")],
 ["bytes of the phase 2 file, evals and srs.lag"],[dict(name="evals",meaning="alpha, beta, A, B, VKK, CKK",where="phase2/utils.go processEvaluations")])
p("C07","Initializing from a parted circuit gives the same phase 2 as from the whole one",
 "For the same circuit and phase 1 file, phase 2 initialization from the circuit's parts produces the same phase 2 file and the same evaluations as initialization from the single circuit file, for any part size. If the stated number of constraints isn't the circuit's, it fails.",
 ["inputs","configurations","programs"],"every circuit, part size and stated count",
 "Tests run one part size larger than the circuit and never compare both ways.",
 ["phase2/parted.go","phase2/utils.go"],[("loading of parts","phase2.InitializeFromPartedR1CS"),("duplicate of the accumulation","phase2/parted.go")],["bytes of the phase 2 file, evals and srs.lag"])
p("C08","A phase 2 contribution scales exactly delta and the delta-divided elements",
 "A phase 2 contribution with secret d multiplies delta by d in G1 and in G2, divides every element of the two delta-divided sections by d, keeps the circuit's header fields and all earlier records byte for byte, increments the counter, and appends one record with the new delta, a proof of knowledge of d bound to the previous record's hash, and the SHA-256 of the record.",
 ["inputs","histories"],"every input file, circuit, chain length, batch layout and secret, wherever the records lie relative to read buffers",
 "The tests never look inside a file and make at most three contributions.",
 ["phase2/phase2.go","phase2/utils.go","phase2/contribution.go","phase2/header.go","common/keypair.go"],
 [("scaling of Z and PKK","phase2/utils.go scale"),("copy of previous records","phase2.Contribute")],["bytes of the output file"],hook=BH)
p("C09","Honest phase 2 ceremonies always verify",
 "A phase 2 file made by initialization followed by one or more contributions is accepted by phase 2 verification against the initialized file, and each contribution succeeds, for every circuit and every number of contributions.",
 ["inputs","histories","programs"],"every circuit, chain length, batch layout and draw of the secrets",
 "Tests run chains of at most three contributions on two circuits; a contribution whose record straddled a read buffer failed unnoticed.",
 ["phase2/phase2.go","phase2/utils.go","phase2/contribution.go"],[("verification chain","phase2.Verify"),("whole reads of records","phase2/contribution.go readFrom")],["exit status / error of verify and contribute"],hook=BH)
p("C10","Phase 2 verification rejects parameters not derived from the origin by delta",
 "If phase 2 verification accepts a file against an origin, then both describe the same circuit dimensions, and there is one d such that delta in G1 and G2 are d times the origin's, every delta-divided element is the origin's divided by d, and d is the product proved by the contribution records. Any altered, swapped, undecodable or missing element is rejected.",
 ["inputs","configurations"],"every file content, position of the alteration, batch layout and mismatched origin",
 "Tests feed the verifier valid files only.",
 ["phase2/phase2.go","phase2/utils.go","phase2/header.go","common/utils.go"],[("aggregate ratio checks","phase2/utils.go verifyParameter, aggregate"),("header equality","phase2/header.go Equal"),("final delta","phase2.Verify")],["verdict of verify"],hook=BH)
p("C11","Phase 2 verification rejects broken or forged contribution transcripts",
 "Phase 2 verification accepts a file only if it has at least one contribution and every record updates the previous delta by a nonzero secret whose knowledge is proved under the previous record's hash and carries its own correct hash. Dropping, reordering, duplicating, replacing or degenerating a record leads to rejection.",
 ["inputs","histories"],"every transcript of every length and every record position",
 "No test expects a rejection.",
 ["phase2/utils.go","phase2/phase2.go","phase2/contribution.go","common/keypair.go"],[("per record pairing and hash checks","phase2/utils.go verifyContribution")],["verdict of verify"])
p("C12","Extracted keys are the circuit's Groth16 keys for the ceremony's secrets",
 "The extracted proving and verifying keys contain exactly the Groth16 elements of the circuit for the ceremony's tau, alpha, beta and delta with gamma = 1, in the layout gnark reads, with points at infinity left out and flagged. Proofs of true statements made with the proving key verify under the verifying key, and the verifying key rejects them for other public inputs.",
 ["inputs","histories","programs"],"every circuit (unused wires, constant public wire, no private wires, any domain), every ceremony history",
 "One proof of one MiMC circuit is verified; nothing compares the keys' contents, and no rejection is tested.",
 ["keys/keys.go"],[("assembly of the keys","keys.ExtractKeys"),("filter of infinity points","keys/keys.go filterInfinityG1/G2")],["bytes of pk and vk","gnark prove and verify"])
p("C13","Split keys carry the same content as the single-file keys",
 "Key extraction into split files yields, element by element, the same proving and verifying key as extraction into single files from the same phase 2 file, readable by gnark's segmented prover. The separately written commitment key is the one in the verifying key, once.",
 ["inputs","histories","programs"],"every circuit and ceremony history",
 "One proof of one circuit is made with split keys; nothing compares both extractions.",
 ["keys/keys.go"],[("assembly of the split keys","keys.ExtractSplitKeys")],["bytes of <session>.pk.*.save and <session>.vk.save","gnark segmented prove and verify"])
p("C14","Circuits with a commitment get keys that work",
 "For a circuit with a Pedersen commitment, initialization puts the committed private wires' elements into the commitment basis, the commitment wire among the public ones and every other wire where gnark puts it, and the extracted verifying key carries the circuit's commitment description. Proofs made with the extracted keys verify, and proofs with a wrong public input don't.",
 ["inputs","programs"],"every choice of committed public and private wires and every position of them",
 "No test uses a commitment.",
 ["phase2/utils.go","keys/keys.go","phase2/parted.go"],[("split of wires","phase2/utils.go filterL"),("commitment info","keys/keys.go extractVK/extractSplitVK")],["bytes of the phase 2 file, evals, keys","gnark prove and verify"])
p("C15","Secrets are fresh from the system's generator and never leave the process",
 "Every secret of a contribution and every blinding of its proofs is a separate full-width draw from the system's cryptographic random generator, used for nothing else and by no other contribution. No secret appears in any file the command writes or in its output.",
 ["inputs","histories"],"every contribution of both phases, whatever the history and input",
 "Tests can't see where the randomness comes from, and never compare two runs.",
 ["phase1/phase1.go","phase2/phase2.go","common/keypair.go"],[("sampling","phase1.Contribute, phase2.Contribute, common.GenPublicKey")],["reads from crypto/rand","bytes of output files and stdout"])
p("C16","Truncated or corrupted ceremony files are never accepted",
 "Verification of either phase rejects every proper prefix of an acceptable file and every file in which a flipped bit alters a parameter or a record; verification against a cut starting file fails too. Contributing to a proper prefix of a file fails, and so do conversion, initialization of phase 2 and key extraction when the parameters or the circuit they need are cut short. A command that computes with an element refuses bytes in its place that stand for no point of the group.",
 ["crash_points","inputs"],"every cut position, every flipped bit, every element replaced",
 "No test reads a damaged file.",
 ["phase1/contribution.go","phase1/header.go","phase1/phase1.go","phase2/contribution.go","phase2/utils.go","keys/keys.go"],[("whole reads and error propagation","ReadFrom/readFrom, linearCombination, aggregate")],["error / exit status"])
p("C17","A command that succeeds has written its complete output",
 "If a command reports success (exit status 0), all its output files have been written completely to the operating system, even when writes fail at any point, as on a full disk. If a write fails, the command reports failure.",
 ["fault_sequences","crash_points"],"every command and every write failure at any offset of any of its output files",
 "No test injects a write error.",
 ["phase1/phase1.go","phase1/utils.go","phase2/phase2.go","phase2/utils.go","phase2/parted.go","phase2/lagrange.go","keys/keys.go"],[("checked writes and flushes","all writers")],["exit status","bytes of output files"])
p("C18","Commands never modify their input files",
 "No command changes or truncates a file named as its input, whether it succeeds or fails, and even if the output path names the same file directly, through a link, or because a fixed work file has that name; in that case the command fails instead.",
 ["inputs","fault_sequences"],"every command, every aliasing of input and output paths, every failure",
 "Tests always use distinct paths and don't compare inputs afterwards.",
 ["common/output.go","phase1/phase1.go","phase2/phase2.go","phase2/parted.go","keys/keys.go"],[("output creation guard","common/output.go")],["bytes of input files","exit status"])
p("C19","The hash a contributor is shown is the one recorded and shown by verifiers",
 "The contribution hash printed by a contribution equals the SHA-256 of the appended record's points and the hash stored in that record, and verification prints the stored hashes of all contributions in order. Later contributions never change a hash that has been printed.",
 ["histories","inputs"],"every chain of both phases",
 "Tests don't look at the output.",
 ["phase1/phase1.go","phase1/contribution.go","phase2/phase2.go","phase2/contribution.go"],[("hash of the record","computeHash")],["stdout","bytes of the output file"])
p("C20","Results don't depend on the number of CPUs or on scheduling",
 "Parallel work is divided so that every index is processed exactly once and all work has finished before it is used. With the same random draws and inputs, every command writes the same bytes whatever the number of CPUs and the interleaving of its workers, and verification gives the same verdict.",
 ["schedules","configurations"],"every number of CPUs, every size, every interleaving",
 "Tests run with one CPU count and don't compare results.",
 ["common/parallelize.go","lagrange/g1.go","lagrange/g2.go","phase1/utils.go","phase2/utils.go"],[("partition of work","common.Parallelize"),("join","sync.WaitGroup, channels in lagrange")],["ranges passed to workers","bytes of output files"])
p("C21","Conversion to the Lagrange basis is exact for every domain size",
 "Converting the group elements of powers of tau over a domain of size n yields in place, at position i, the element of the i-th Lagrange polynomial at tau, in natural order; more generally it is the inverse discrete Fourier transform of any input vector, in G1 and in G2, points at infinity included.",
 ["inputs","configurations"],"every power of two n, every input vector, every number of CPUs",
 "Tests use two domain sizes through one valid proof.",
 ["lagrange/g1.go","lagrange/g2.go","phase2/lagrange.go"],[("decimation in frequency FFT with a size 8 kernel","lagrange/g1.go, lagrange/g2.go"),("bit reversal","lagrange/g1.go, lagrange/g2.go")],["converted points"])
p("C22","The command line accepts exactly valid requests and reports every failure",
 "Each command checks the number of its arguments and the range of its powers (1 to 26 for initialization, 1 <= reduced <= original <= 28 for conversion), passes the arguments to the operation its help describes, and exits with status 0 exactly if the operation succeeded. A rejected request writes no output.",
 ["inputs","configurations"],"every command and argument list",
 "Tests call the packages and never the command.",
 ["main.go","actions.go"],[("argument checks","actions.go"),("exit status","main.go")],["exit status","files created"])
p("C23","A circuit that exceeds the phase 1 parameters is refused, one that fits is not",
 "Phase 2 initialization (from a whole or a parted circuit) fails if the circuit has more constraints than 2^power of the phase 1 file, and succeeds if it has at most that many, up to and including equality.",
 ["inputs","programs","configurations"],"every pair of power and number of constraints",
 "Tests use circuits that fit.",
 ["phase2/utils.go","phase2/parted.go"],[("capacity check","phase2/utils.go processHeader, phase2/parted.go processHeaderParted")],["exit status / error"])
p("C24","The exported Solidity verifier holds the extracted verifying key",
 "The exported contract contains exactly the alpha, beta, gamma, delta and public input elements of the session's verifying key, for any number of public inputs. If the key is missing or unreadable, the export fails with an error and leaves no contract.",
 ["inputs","programs"],"every session and number of public inputs",
 "No test exports a contract.",
 ["keys/keys.go"],[("export","keys.ExportSol")],["text of <session>.sol","error"])
p("C25","Batched processing equals processing the whole file at once",
 "Files are processed in batches of points; for every batch size, contributions write the same bytes and verification gives the same verdict as if all points were processed at once, in both phases. In particular no relation between points on different sides of a batch boundary is lost.",
 ["configurations","inputs"],"every batch size, file size and position of an alteration relative to the boundaries",
 "Test files are far smaller than one batch of 2^20 points.",
 ["phase1/utils.go","phase2/utils.go"],[("running power and carried point","phase1/utils.go scaleG1/G2, linearCombinationG1/G2"),("batches","phase2/utils.go scale, aggregate")],["bytes of the output file","verdict of verify"],hook=BH)
p("C26","A failing random generator never yields predictable secrets or weights",
 "If a read from the system's random generator fails - once, or from some point on - then the command that needed it fails (or tries again until it has real random bytes). No contribution, verification or key extraction succeeds with a secret, a proof's blinding, a combination weight or a commitment key that wasn't drawn from the generator.",
 ["fault_sequences"],"every command that draws, every read it makes, single and lasting failures",
 "No test makes the generator fail; an ignored error leaves a secret of zero or a weight of zero and nothing looks different.",
 ["common/keypair.go","phase1/phase1.go","phase1/utils.go","phase2/phase2.go","phase2/utils.go","keys/keys.go"],
 [("sampling of secrets and blindings","phase1.Contribute, phase2.Contribute, common.GenPublicKey"),("weights of random linear combinations","phase1/utils.go randomize, phase2/utils.go aggregate")],["exit status","reads from crypto/rand"])
p("C27","Outputs depend on inputs and draws only, not on leftovers or surroundings",
 "Repeating a command over anything that earlier commands left behind - complete or partial files of other runs under the names of its outputs and work files, its own outputs after it was killed or failed at any write - succeeds and writes the same bytes as in a directory with nothing but its inputs, given the same random draws. The environment, the working directory, closed standard streams and commands running beside it with other outputs don't matter either, also not for the verdict of verification.",
 ["crash_points","histories","configurations"],"every command, every leftover, every point at which an earlier run was killed",
 "Tests run each command once, in one directory, undisturbed.",
 ["common/output.go","phase1/phase1.go","phase2/phase2.go","phase2/parted.go","phase2/lagrange.go","keys/keys.go"],
 [("creation of outputs and work files","common/output.go, phase2/lagrange.go, keys/keys.go")],["bytes of output files","exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
