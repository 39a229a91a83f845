NA = {}
ALG = T + "algorithm specification checked exhaustively; TLC's transitions replayed on the code, recorded runs and explored schedules validated as traces by TLC"
C["C18"] = (ALG, "model_checking", SEQN)
C["C19"] = (T + "histories of explored schedules with injected write faults validated as traces by TLC", "model_checking",
            "Write failures (none or part of the data written) are injected at chosen writes of the instrumented code, schedules explored with a preemption bound and at random; every history is validated by TLC against a trace specification of error reporting. Trusts the instrumentation, the scheduler and the file wrapper.")
C["C20"] = (ALG.replace("algorithm", "functional") + "; system calls of raw runs (msync ranges) validated as traces by TLC", "model_checking", SEQN)
WALK = T + "functional specification checked exhaustively; TLC's transitions replayed on the code and long recorded runs validated as traces by TLC"
WALKN = ("The specification is exhaustive for small contents and few slots; every recorded run (random contents, sizes, damage; also goroutines in parallel) is validated by TLC. "
         "Results are compared through the driver's naming of contents; inputs beyond the generator's sizes are not covered.")
C["C21"] = (WALK, "model_checking", "Sizes and contents up to those of the generator; single goroutine (a Buffer is not shared).")
C["C22"] = (SEQ, "model_checking", SEQN)
CR = T + "algorithm specification with crash points checked exhaustively; functional specification replayed on the code; explored schedules and a simulated crash at every file operation validated as traces by TLC"
CRN = ("Crashes are simulated at (and inside) every file operation of the instrumented code: what the process wrote before it died survives, the rest is lost; power loss (unsynced pages) is not modelled. " + SEQN)
C["C23"] = (CR, "model_checking", CRN)
C["C24"] = (CR, "model_checking", CRN)
C["C25"] = (WALK, "model_checking", WALKN)
C["C26"] = (WALK, "model_checking", WALKN)
C["C27"] = (SEQ, "model_checking", "UUIDs compared character by character by TLC; uniqueness over explored schedules, recorded runs and parallel bursts of up to 160 000 UUIDs.")
C["C31"] = (WALK, "model_checking", "Integer and base58 conversions are transcribed as TLA+ arithmetic on limbs and compared with the code on every recorded call; value codecs through content names. " + WALKN)
TR = T + "algorithm specification checked exhaustively against the functional one; explored schedules and recorded runs over real "
C["C28"] = (TR + "connections validated as traces by TLC", "model_checking",
            "Schedules of the instrumented code (with a stand-in for golang.org/x/net/websocket) up to a preemption bound and at random; real loopback and TLS connections to a peer with its own frame code. Messages above 300 kB and networks other than loopback are not covered.")
C["C29"] = (TR + "signals validated as traces by TLC", "model_checking",
            "Schedules of the instrumented code (with a stand-in for os/signal) up to a preemption bound and at random; real signals the driver sends to itself, one at a time. An empty signal list is not covered.")
C["C30"] = (T + "algorithm specification checked exhaustively against the functional one; every reply and request enumerated by TLC is played over real connections, and each exchange validated as a trace by TLC", "model_checking",
            "Replies (lengths, encodings, statuses, cuts, failures) and requests are those TLC enumerates plus random ones, over loopback and TLS. Redirects, proxies and servers that never answer are not covered.")
C["C32"] = (WALK, "model_checking", "Digests are defined in TLA+ and compared on boundary lengths and random inputs up to 300 bytes; dates from 1992 on; randomness is checked for its range and for reaching each of few values, not for its distribution. " + WALKN)

C["C33"] = (WALK, "model_checking", "Pixels are judged where the formats and steps determine them (lossless formats, nearest-neighbour and flat images); other resampling only by its sides. Images of up to 160 x 160 pixels, rotations by multiples of 90 degrees, anchors inside the image; the icon format runs against a stand-in for github.com/donnie4w/ico, which is not available offline. " + WALKN)
