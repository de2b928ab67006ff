----------------------------- MODULE DumpTrace -----------------------------
(* What became of a folder.  obs: [s, ops, seen: <<[files: <<[dir, base, ext, changed]>>, loaded: <<[doc, at]>>, status,
   answers]>>]; changed: its content is not what it was before the operation (or it was not there).                        *)
EXTENDS Dump, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
Effect(s, files, o) ==
    CASE o.op = "hand" -> files \cup {o.file}
      [] o.op = "dump" -> WriteAll(files, [k \in 1..Len(o.docs) |-> [at |-> Home(s, o.docs[k]), doc |-> o.docs[k]]])
      [] o.op = "again" -> files
      [] o.op = "move" -> {[dir |-> x.at.dir, base |-> x.at.base, ext |-> x.at.ext, kind |-> "doc", doc |-> x.doc] : x \in Loaded(s, files)}
      [] o.op = "change" -> Write(files, o.at, o.doc)
MayWrite(s, files, o) ==
    CASE o.op = "hand" -> {Place(o.file)}
      [] o.op = "dump" -> {Home(s, o.docs[k]) : k \in 1..Len(o.docs)}
      [] o.op = "change" -> {o.at}
      [] OTHER -> {x.at : x \in Loaded(s, files)}
Wrong(s, files, o, g) ==
    LET after == Effect(s, files, o) IN
    IF g.status # "" THEN "failed"
    ELSE IF {Place(g.files[k]) : k \in 1..Len(g.files)} # {Place(f) : f \in after} THEN "other files"
    ELSE IF \E k \in 1..Len(g.files) : g.files[k].changed /\ Place(g.files[k]) \notin MayWrite(s, files, o) THEN "touched a file of someone else"
    ELSE IF ~SameLoad(Loaded(s, after), g.loaded) THEN "loaded other definitions"
    ELSE IF ~g.answers THEN "other answers"
    ELSE ""
RECURSIVE Judge(_, _, _)
Judge(x, k, files) == IF k > Len(x.ops) THEN ""
    ELSE LET w == Wrong(x.s, files, x.ops[k], x.seen[k]) IN IF w # "" THEN ToString(k) \o " " \o w ELSE Judge(x, k + 1, Effect(x.s, files, x.ops[k]))
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET x == Judge(Obs[i], 1, {}) IN verdict' = IF x = "" THEN "accepted" ELSE IF PrintT(<<"VERDICT", i, x>>) THEN "rejected" ELSE "x"
        /\ UNCHANGED i
=============================================================================
