------------------------------ MODULE HttpSpec ------------------------------
(* What a user of httpclient.Post, Post2 and Post3 and the server see (C30). Bodies are named.
   A reply is planned by the server: status, framing of the body, its name, where it is cut,
   and how it is sent; Whole says which replies a client can take as complete.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES call, seen, reply, done
hvars == <<call, seen, reply, done>>
\* call: tag -> [body, close, hdr, cookie, way]; way: "ok" or why nothing can be exchanged
NoBody == {"204", "304"}
Statuses == {"200", "201", "400", "404", "500", "302", "999"} \cup NoBody
Frames == {"length", "chunked", "eof"}
Sizes == {"0", "1", "600", "70000", "1200000"}
Cuts == {"no", "unread", "before", "status", "headers", "part", "reset", "last", "garbage", "chunk", "stream"}
Hows == {"once", "pieces", "interim", "gzip"}
InBody == {"part", "reset", "last"}
Plan(p) == /\ p.cut \in InBody \cup {"chunk", "stream"} => p.size \notin {"0", "1"} /\ p.status \notin NoBody
           /\ p.cut \in {"part", "last"} => p.frame # "eof"      \* without a length the end of the connection ends the body
           /\ p.cut = "chunk" => p.frame = "chunked"
           /\ p.cut = "stream" => p.how = "gzip"
           /\ p.how = "gzip" => p.cut \in {"no", "stream"} /\ p.status \notin NoBody
           /\ p.status \in NoBody => p.size = "0" /\ p.frame = "eof"
           /\ p.cut \in {"unread", "before", "status", "headers", "garbage"} => p.how = "once" /\ p.size = "600" /\ p.status = "200"
           /\ p.size = "1200000" => p.how # "pieces"
\* whole replies of every status, of every size up to a large one
Wide == {[status |-> st, frame |-> "length", size |-> "600", cut |-> "no", how |-> "once"] : st \in {ToString(n) : n \in 200..599} \ NoBody}
        \cup {[status |-> "200", frame |-> f, size |-> z, cut |-> "no", how |-> "once"] : f \in Frames, z \in {"2", "511", "512", "513", "4095", "4096", "4097", "65536", "1048576", "1048577", "35000000"}}
Plans == {p \in [status : Statuses, frame : Frames, size : Sizes, cut : Cuts, how : Hows] : Plan(p)} \cup Wide
Whole(p) == p.cut = "no"
\* requests
Bodies == {"0", "1", "17", "512", "4096", "4097", "70000", "1500000", "9000000"}
Headers == {"", "X-A=1", "x-lower=v;X-Two=a b,c;Authorization=Basic eHl6", "Content-Type=text/plain;User-Agent=me;X-Empty="}
Cookies == {"", "sid=abc", "n=a b", "e="}
Fns == {"Post", "Post2", "Post3"}
Request(r) == /\ r.fn = "Post" => ~r.close
              /\ r.fn # "Post3" => r.hdr = "" /\ r.cookie = ""
Requests == {r \in [fn : Fns, body : Bodies, close : BOOLEAN, hdr : Headers, cookie : Cookies, tls : BOOLEAN] : Request(r)}

HInit(Tags) == call = [t \in Tags |-> <<>>] /\ seen = {} /\ reply = [t \in Tags |-> <<>>] /\ done = {}
Begin(t, c) == call[t] = <<>> /\ call' = [call EXCEPT ![t] = c] /\ UNCHANGED <<seen, reply, done>>
\* the one request of this call: close is asked for when told to
Arrives(t, method, body, close, hdr, cookie) ==
    /\ call[t] # <<>> /\ t \notin seen /\ t \notin done
    /\ call[t].way = "ok"
    /\ method = "POST" /\ body = call[t].body /\ hdr = call[t].hdr /\ cookie = call[t].cookie
    /\ call[t].close => close
    /\ seen' = seen \cup {t} /\ UNCHANGED <<call, reply, done>>
Answers(t, whole, body) == call[t] # <<>> /\ reply[t] = <<>> /\ (whole => t \in seen) /\ reply' = [reply EXCEPT ![t] = [whole |-> whole, body |-> body]] /\ UNCHANGED <<call, seen, done>>
Returns(t, ok, body) == /\ call[t] # <<>> /\ t \notin done
                        /\ IF ok THEN reply[t] # <<>> /\ reply[t].whole /\ reply[t].body = body
                           ELSE body = "" /\ (call[t].way # "ok" \/ (reply[t] # <<>> /\ ~reply[t].whole))
                        /\ done' = done \cup {t} /\ UNCHANGED <<call, seen, reply>>
=============================================================================
