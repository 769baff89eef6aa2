------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* All short histories over a few files and classes.  `hist` is the        *)
(* history itself; the store must agree with a fold over it (ReadsLast),   *)
(* and every complete history is emitted to be executed for real.          *)
(***************************************************************************)
EXTENDS Store, Integers, TLC, Json
CONSTANTS Stems, Classes, Values, MaxLen
VARIABLES files, hist
Recs == [c : Classes, x : Values]
NoOp == [op |-> "", s |-> "", d |-> "", r |-> [c |-> "", x |-> 0]]
Ev(op, s, d, r) == [op |-> op, s |-> s, d |-> d, r |-> r]
Empty == [n \in {} |-> Junk]

Init == files = Empty /\ hist = <<>>
Step(e, f) == hist' = Append(hist, e) /\ files' = f
DoSave == \E s \in Stems, r \in Recs : Step(Ev("save", s, "", r), Save(files, s, r))
DoRemove == \E s \in DOMAIN files : Step(Ev("remove", s, "", NoOp.r), Remove(files, s))
DoJunk == \E s \in Stems : Step(Ev("junk", s, "", NoOp.r), Save(files, s, Junk))
DoCopy == \E s \in DOMAIN files, d \in Stems : s # d /\ Step(Ev("copy", s, d, NoOp.r), Copy(files, s, d))
DoLoad == \E s \in Stems, via \in Classes \cup {""} :
    /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "load")
    /\ Step(Ev("load", s, via, NoOp.r), files)
Next == Len(hist) < MaxLen /\ (DoSave \/ DoRemove \/ DoJunk \/ DoCopy \/ DoLoad)
        /\ (Len(hist') = MaxLen => PrintT("TR " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<files, hist>>

\* The last event that determined file s, looking back from event k.
RECURSIVE LastFor(_, _)
LastFor(s, k) ==
    IF k = 0 THEN [there |-> FALSE, rec |-> Junk]
    ELSE LET e == hist[k] IN
         IF e.op = "save" /\ e.s = s THEN [there |-> TRUE, rec |-> e.r]
         ELSE IF e.op = "junk" /\ e.s = s THEN [there |-> TRUE, rec |-> Junk]
         ELSE IF e.op = "remove" /\ e.s = s THEN [there |-> FALSE, rec |-> Junk]
         ELSE IF e.op = "copy" /\ e.d = s THEN LastFor(e.s, k - 1)
         ELSE LastFor(s, k - 1)
ReadsLast == \A s \in Stems :
    LET w == LastFor(s, Len(hist)) IN
    /\ (s \in DOMAIN files) = w.there
    /\ w.there => files[s] = w.rec
\* A load succeeds through at most one class besides the anonymous way.
OneClass == \A s \in Stems : Cardinality({c \in Classes : LoadOK(files, s, c)}) = (IF LoadOK(files, s, "") THEN 1 ELSE 0)
=============================================================================
