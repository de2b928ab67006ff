------------------------------- MODULE Dump -------------------------------
(* Projects as files.  A folder is a set of files [dir, base, ext, kind, doc]; doc is a definition
       [type: "model" | "view", name, entries: <<[k, v]>>, fields: <<[name, kind, entries]>>]
   or anything else (kind "other").  The settings say which folders are read for models and for views; everything below
   them that is yaml is read, once, except what is hidden or belongs to a virtual environment.

   Dumping writes every definition to the file it was read from, or else to  <name>_<type>.yml  in the first folder of its
   type, and touches no other file.  Loading gives the definitions of the files.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Elems(q) == {q[k] : k \in 1..Len(q)}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Roots(s, type) == IF type = "model" THEN s.models ELSE s.views
AllRoots(s) == Elems(s.models) \cup Elems(s.views)
Place(f) == [dir |-> f.dir, base |-> f.base, ext |-> f.ext]
Skipped == {".hidden", "venv"}
Read(s, f) == /\ f.ext \in {"yml", "yaml"}
              /\ f.base \notin {".dot"}
              /\ \E r \in AllRoots(s) : Prefix(r.at, f.dir) /\ \A k \in Len(r.at) + 1..Len(f.dir) : f.dir[k] \notin Skipped
Home(s, d) == [dir |-> Head(Roots(s, d.type)).at, base |-> d.name \o (IF d.type = "model" THEN "_model" ELSE "_view"), ext |-> "yml"]
\* what is loaded: the definitions and where they were read
Loaded(s, files) == {[doc |-> f.doc, at |-> Place(f)] : f \in {g \in files : g.kind = "doc" /\ Read(s, g)}}
Write(files, at, doc) == {f \in files : Place(f) # at} \cup {[dir |-> at.dir, base |-> at.base, ext |-> at.ext, kind |-> "doc", doc |-> doc]}
RECURSIVE WriteAll(_, _)
WriteAll(files, items) == IF items = <<>> THEN files ELSE WriteAll(Write(files, Head(items).at, Head(items).doc), Tail(items))

\* the same definition: whatever the order in which its entries are written, or its fields
SameEntries(a, b) == Len(a) = Len(b) /\ Elems(a) = Elems(b)
SameDoc(a, b) == /\ a.type = b.type /\ a.name = b.name /\ SameEntries(a.entries, b.entries) /\ Len(a.fields) = Len(b.fields)
                 /\ \A k \in 1..Len(a.fields) : \E j \in 1..Len(b.fields) :
                      a.fields[k].name = b.fields[j].name /\ a.fields[k].kind = b.fields[j].kind /\ SameEntries(a.fields[k].entries, b.fields[j].entries)
SameLoad(want, got) == /\ Cardinality(want) = Len(got)
                       /\ \A x \in want : \E k \in 1..Len(got) : got[k].at = x.at /\ SameDoc(x.doc, got[k].doc)
=============================================================================
