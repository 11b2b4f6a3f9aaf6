------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: every recorded history of the real library has to be a     *)
(* behaviour of the specification.  TLC follows each history call by call; *)
(* a result the specification does not allow stops it with a MISMATCH      *)
(* line.  The invariants are evaluated in every state on the way.          *)
(***************************************************************************)
EXTENDS IniApi, IniProps, Json

CONSTANT File
Cases == ndJsonDeserialize(File)

VARIABLES cid, l, st, ok
vars == <<cid, l, st, ok>>

Steps == Cases[cid].steps
Ev == Steps[l]

Init == cid \in 1..Len(Cases) /\ l = 1 /\ st = Init0 /\ ok = TRUE

Report(kind, exp) == PrintT("MISMATCH " \o ToString(Cases[cid].id) \o " " \o ToString(l) \o " "
                            \o kind \o " " \o ToString(exp))

(* One call.  If it cannot be explained the history stops here.            *)
Take ==
  /\ ok /\ l <= Len(Steps)
  /\ UNCHANGED cid
  /\ IF ~Enabled(st, Ev)
     THEN /\ Report("target", "none") /\ ok' = FALSE /\ UNCHANGED <<l, st>>
     ELSE LET r == IF Ev.op \in PropOps THEN PropCall(st, Ev) ELSE Call(st, Ev)
              good == IF Ev.op \in PropOps THEN r.good ELSE Unspecified(st, Ev) \/ Same(Ev.op, r.out, Ev.out) IN
          IF good
          THEN l' = l + 1 /\ st' = r.st /\ ok' = TRUE
          ELSE /\ Report(Ev.op, r.out) /\ ok' = FALSE /\ UNCHANGED <<l, st>>

IsLoad == ok /\ l <= Len(Steps) /\ Ev.op \in {"load", "append", "reload"} /\ Take
IsObserve == ok /\ l <= Len(Steps) /\ Ev.op \in {"obs", "seclist", "keylist", "keys", "hash", "secsby",
                "children", "childsof", "parentkeys", "getsec", "hassec", "getkey", "haskey", "hasvalue",
                "hold", "held", "spoil", "intact", "absent"} /\ Take
IsEditSection == ok /\ l <= Len(Steps) /\ Ev.op \in {"newsec", "newraw", "newsecs", "section", "secidx",
                "delsec", "delsecidx", "seccom", "setbody"} /\ Take
IsEditKey == ok /\ l <= Len(Steps) /\ Ev.op \in {"newkey", "newbool", "key", "delkey", "setval", "keycom",
                "addshadow", "addnested"} /\ Take
IsReadValue == ok /\ l <= Len(Steps) /\ Ev.op \in {"value", "string", "strings", "shadows", "strsh", "get",
                "must", "must0", "validate", "in", "range", "list"} /\ Take
IsStruct == ok /\ l <= Len(Steps) /\ Ev.op \in {"map", "mapsrc", "reflect"} /\ Take
IsWrite == ok /\ l <= Len(Steps) /\ Ev.op \in {"write", "writefail", "savefail"} /\ Take
IsSetting == ok /\ l <= Len(Steps) /\ Ev.op \in {"block", "mapper", "swap", "grab", "touch"} /\ Take
IsProperty == ok /\ l <= Len(Steps) /\ Ev.op \in PropOps /\ Take

Next == \/ IsLoad \/ IsObserve \/ IsEditSection \/ IsEditKey \/ IsReadValue \/ IsWrite
        \/ IsSetting \/ IsStruct \/ IsProperty

Spec == Init /\ [][Next]_vars
Vw == <<cid, l, ok>>

Inv == WellFormed(st.d)
=============================================================================
