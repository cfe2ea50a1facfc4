------------------------------- MODULE AppTrace -------------------------------
(***************************************************************************)
(* Checks recorded runs of the application against App.tla and Csv.tla.    *)
(*                                                                         *)
(* A run is one record: the input file (settings as text, particle table   *)
(* as characters), what the library does with that input (ref: the states  *)
(* after every step, recorded from the library itself), and what the       *)
(* application did: lines on the screen, frames, exit status.  The machine *)
(* of App.tla is driven by the clock of the reference; every frame it      *)
(* writes must have been written, with that number and the state of that   *)
(* step.                                                                   *)
(***************************************************************************)
EXTENDS App, Csv, Json, IOUtils

CONSTANTS Props
Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r,    \* the run
          bad
vars == <<avars, r, bad>>

Run == Runs[r]
Chk(PS, what, S) == IF PS \cap Props = {} THEN {} ELSE {<<p, what, i>> : p \in PS \cap Props, i \in S}
One(cond) == IF cond THEN {} ELSE {0}

----------------------------------------------------------------------------
(* What the settings mean *)
Dim == Run.dim
Needed == {"startTime", "endTime", "outputInterval", "l_0", "minStepCountPerOutput", "courant", "g", "rho", "nu", "r_eByl_0",
           "minX", "minZ", "maxX", "maxZ"}
          \cup (IF Dim = 3 THEN {"minY", "maxY"} ELSE {}) \cup (IF Run.spp THEN {} ELSE {"surfaceRatio"})
          \cup (IF Run.expl THEN {"c"} ELSE {"eps"})
Given == DOMAIN Run.settings
Set(name) == RLit(Run.settings[name])
Table == Parse(Dim, Run.table)
MustReject == ~Run.wellFormed \/ ~(Needed \subseteq Given) \/ Run.type # "csv" \/ Table.res = "rejected"
Unspecified == ~MustReject /\ Table.res = "unspecified"

(* the parameters the library has to be given (the names of MpsTrace's raw record) *)
RawOf == [maxdt |-> RDiv(Set("outputInterval"), Set("minStepCountPerOutput")), courant |-> Set("courant"), g |-> Set("g"), rho |-> Set("rho"),
          nu |-> Set("nu"), ratio |-> Set("r_eByl_0"), l0 |-> Set("l_0"),
          min |-> IF Dim = 2 THEN <<Set("minX"), Set("minZ")>> ELSE <<Set("minX"), Set("minY"), Set("minZ")>>,
          max |-> IF Dim = 2 THEN <<Set("maxX"), Set("maxZ")>> ELSE <<Set("maxX"), Set("maxY"), Set("maxZ")>>]
RawOk(raw) == \A f \in DOMAIN RawOf : raw[f] = RawOf[f]

(* the parameters seen inside the application (if it was built with the trace points) *)
EnvMatch == [l0 |-> "l_0", rho |-> "rho", nu |-> "nu"]
MaxDt == LET dx == RMul(Set("courant"), Set("l_0"))
         IN RMin(RawOf.maxdt, IF Run.expl THEN RDiv(dx, Set("c")) ELSE IF RLe(Set("g"), R0) THEN RawOf.maxdt ELSE RSqrt(RDiv(RMul(RInt(2), dx), Set("g"))))
(* the particles the first step starts from, as its search left them (it only disables) *)
Same(a, b) == RClose(a, b, RLit("1e-14"), RAbs(b))
GivenBad(ps) ==
    IF ps = <<>> THEN {}
    ELSE IF Len(ps) # Len(Table.ps) THEN Chk({"P18"}, "number of particles simulated", {Len(ps)})
    ELSE Chk({"P18"}, "particle simulated", {i \in DOMAIN ps :
             LET a == ps[i]
                 b == Table.ps[i]
             IN ~(/\ a.ty \in {b.ty, 3} /\ Same(a.p, b.p) /\ Same(a.n, b.n)
                  /\ \A d \in 1..Dim : Same(a.x[d], b.x[d]) /\ Same(a.u[d], b.u[d]))})
EnvBad(e) ==
    GivenBad(e.ps) \cup
    UNION {Chk({"P20"}, "setting " \o EnvMatch[f], One(e[f] = Set(EnvMatch[f]))) : f \in DOMAIN EnvMatch}
    \cup Chk({"P20"}, "setting g", One(REq(e.g[Dim], RNeg(Set("g"))) /\ \A a \in 1..(Dim - 1) : REq(e.g[a], R0)))
    \cup Chk({"P20"}, "minimum corner", {a \in 1..Dim : e.min[a] # RawOf.min[a]}) \cup Chk({"P20"}, "maximum corner", {a \in 1..Dim : e.max[a] # RawOf.max[a]})
    \cup Chk({"P20"}, "courant number", One(RClose(e.maxdx, RMul(Set("courant"), Set("l_0")), RLit("1e-12"), e.maxdx)))
    \cup Chk({"P20"}, "influence radius", One(RClose(e.re, RMul(Set("r_eByl_0"), Set("l_0")), RLit("1e-12"), e.re)))
    \cup Chk({"P20"}, "maximum time step", One(RClose(e.maxdt, MaxDt, RLit("1e-12"), MaxDt)))
    \cup Chk({"P20"}, "tolerance", One(Run.expl \/ e.eps = Set("eps")))
    \cup Chk({"P20"}, "surface ratio", One(Run.spp \/ e.sr = Set("surfaceRatio")))
    \cup Chk({"P20"}, "speed of sound", One(~Run.expl \/ e.c = Set("c")))

----------------------------------------------------------------------------
(* What was observed *)
Lines(kind) == SelectSeq(Run.out, LAMBDA o : o.kind = kind)
FrameNos == {Run.frames[i].no : i \in DOMAIN Run.frames}
FrameNo(n) == LET i == CHOOSE i \in DOMAIN Run.frames : Run.frames[i].no = n IN Run.frames[i]

(* A number of a frame shows x to output precision (6 digits). *)
Shows(tok, x) == RClose(tok, x, RLit("5.1e-6"), RAbs(x)) \/ (RLt(RAbs(x), RLit("1e-300")) /\ RLt(RAbs(tok), RLit("1e-300")))
Header == IF Dim = 2 THEN "Type, x, z, u, w, p, n" ELSE "Type, x, y, z, u, v, w, p, n"
RowShows(row, s, i) ==
    /\ Len(row) = 3 + 2 * Dim
    /\ REq(row[1], RInt(s.ty[i]))
    /\ \A a \in 1..Dim : Shows(row[1 + a], s.x[i][a]) /\ Shows(row[1 + Dim + a], s.u[i][a])
    /\ Shows(row[2 + 2 * Dim], s.p[i]) /\ Shows(row[3 + 2 * Dim], s.n[i])
FrameBad(f, s) ==
    Chk({"P19"}, "header of frame " \o ToString(f.no), One(f.head = Header))
    \cup Chk({"P19"}, "number of rows of frame " \o ToString(f.no), One(Len(f.rows) = Len(s.ty)))
    \cup (IF Len(f.rows) # Len(s.ty) THEN {} ELSE
          Chk({"P19", "P17"} \cup (IF Run.sensitive THEN {"P20"} ELSE {}), "row of frame " \o ToString(f.no), {i \in DOMAIN s.ty : ~RowShows(f.rows[i], s, i)}))
    \* the frame, read as input again, gives these particles
    \cup (IF f.chars = <<>> THEN {} ELSE
          LET back == Parse(Dim, f.chars)
          IN Chk({"P19"}, "frame " \o ToString(f.no) \o " cannot be read back",
                 One(back.res = "ok" /\ Len(back.ps) = Len(s.ty) /\ \A i \in DOMAIN s.ty :
                     /\ back.ps[i].ty = s.ty[i] /\ Shows(back.ps[i].p, s.p[i]) /\ Shows(back.ps[i].n, s.n[i])
                     /\ \A a \in 1..Dim : Shows(back.ps[i].x[a], s.x[i][a]) /\ Shows(back.ps[i].u[a], s.u[i][a]))))

(* the k-th progress line belongs to frame f of the model showing state s *)
ProgressBad(k, f, s) ==
    LET L == Lines("progress")
    IN IF Len(L) < k THEN Chk({"P17"}, "progress line of frame missing", {f.no})
       ELSE LET o == L[k]
            IN Chk({"P17"}, "number in the progress line", One(o.no = f.no))
               \cup Chk({"P17"}, "step count in the progress line", One(o.iter = f.step))
               \cup Chk({"P17"}, "time in the progress line", One(RClose(o.t, RAdd(cfg.start, f.time), RLit("0.51e-4"), R1)))
               \cup Chk({"P17", "P02"}, "number of enabled particles in the progress line", One(o.count = Cardinality({i \in DOMAIN s.ty : s.ty[i] # 3})))

State(k) == Run.ref.states[k + 1]     \* after k steps
WrittenBad(f) == \* f: a frame the model just wrote
    LET s == State(f.step)
    IN IF f.no \notin FrameNos THEN Chk({"P17"} \cup (IF Run.ref.threw = "" THEN {} ELSE {"P23"}), "frame not written", {f.no})
       ELSE FrameBad(FrameNo(f.no), s) \cup ProgressBad(Len(frames) + 1, f, s)

----------------------------------------------------------------------------
CfgOf(run) == IF run.ok
              THEN [ok |-> TRUE, start |-> RLit(run.settings["startTime"]), end |-> RLit(run.settings["endTime"]), interval |-> RLit(run.settings["outputInterval"]),
                    blocked |-> {run.blocked[i] : i \in DOMAIN run.blocked}]
              ELSE [ok |-> FALSE, start |-> R0, end |-> R0, interval |-> R1, blocked |-> {}]

TInit == /\ r \in DOMAIN Runs /\ bad = {}
         /\ AInit /\ cfg = CfgOf(Runs[r])

(* the particles the application starts from, and the parameters: the reference was given the right ones *)
RefBad ==
    LET s == State(0)
    IN {<<"harness", "reference", 0>> : x \in One(RawOk(Run.ref.raw))}
       \cup Chk({"P18", "P17"}, "number of particles read", One(\A i \in DOMAIN Lines("particles") : Lines("particles")[i].n = Len(Table.ps)))
       \cup {<<"harness", "reference particles", i>> : i \in
             (IF Len(Table.ps) # Len(s.ty) THEN {0} ELSE
              {i \in DOMAIN s.ty : ~(Table.ps[i].ty = s.ty[i] /\ Table.ps[i].x = s.x[i] /\ Table.ps[i].u = s.u[i] /\ Table.ps[i].p = s.p[i] /\ Table.ps[i].n = s.n[i])})}
(* the particles read show in the first frame *)
ReadBad ==
    IF Frame(0).no \notin FrameNos THEN Chk({"P18", "P20"}, "no initial frame", {0})
    ELSE LET f == FrameNo(Frame(0).no)
         IN Chk({"P18"}, "number of particles read", One(Len(f.rows) = Len(Table.ps)))
            \cup (IF Len(f.rows) # Len(Table.ps) THEN {} ELSE Chk({"P18"}, "particle read", {i \in DOMAIN f.rows : ~RowShows(f.rows[i], State(0), i)}))

TReject == /\ Reject
           /\ bad' = bad \cup Chk({"P18", "P20", "P23"}, "frame written for an input that has to be rejected", FrameNos)
                         \cup Chk({"P18", "P20", "P23"}, "input accepted that has to be rejected", One(Run.rc # 0))
                         \cup Chk({"P18", "P20", "P23"}, "crash instead of an error", One(Run.rc \notin {139, 136, 135, 132}))
TLoad == /\ Load
         /\ bad' = bad \cup RefBad \cup ReadBad \cup WrittenBad(Frame(0))
                   \cup (IF Run.env = <<>> THEN {} ELSE EnvBad(Run.env[1]))
TAdvance == /\ step + 2 <= Len(Run.ref.states) /\ Advance(State(step + 1).t) /\ UNCHANGED bad
TFail == /\ step + 2 > Len(Run.ref.states) /\ Run.ref.threw # "" /\ Fail
         /\ bad' = bad \cup Chk({"P23"}, "error not reported", One(\E i \in DOMAIN Run.out : Run.out[i].kind = "error"))
                       \cup Chk({"P23"}, "reason of the error not reported", One(\E i \in DOMAIN Run.out : Run.out[i].kind = "other" /\ Run.out[i].text = Run.ref.threw))
TLose == /\ Lose
         /\ bad' = bad \cup Chk({"P23"}, "frame that cannot be written not reported", One(\E i \in DOMAIN Run.out : Run.out[i].kind = "error"))
                       \cup Chk({"P23"}, "frame shown as written that could not be", {i \in DOMAIN Lines("progress") : Lines("progress")[i].no = Offset + due.k})
TOutput == /\ Output /\ bad' = bad \cup WrittenBad(Frame(due.k))
TFinish == /\ Finish
           /\ LET expected == {frames[i].no : i \in DOMAIN frames}
              IN bad' = bad \cup Chk({"P17", "P23"}, "frame too many", FrameNos \ expected)
                        \cup Chk({"P17"}, "name of a frame", {i \in DOMAIN Run.frames : ~Run.frames[i].named})
                        \cup Chk({"P17"}, "progress line too many", One(Len(Lines("progress")) <= Len(frames)))
                        \cup Chk({"P23"}, "error reported without one", One(phase = "failed" \/ Lines("error") = <<>>))
                        \cup Chk({"P17", "P23"}, "does not end normally", One(Run.rc = 0))
                        \cup Chk({"P23"}, "end not reported", One(Lines("finished") # <<>>))
TRest == Ended /\ UNCHANGED <<avars, bad>>
TDone == /\ phase' # phase /\ phase' \in {"rejected", "done", "stopped"} => PrintT(<<"DONE", r, step, Len(frames), Len(Run.out)>>)
TNext == UNCHANGED r /\ ((TReject /\ TDone) \/ TLoad \/ TAdvance \/ TFail \/ TLose \/ TOutput \/ (TFinish /\ TDone) \/ TRest)
TSpec == TInit /\ [][TNext]_vars
NoViolation == bad = {}
(* the generator classified the input as the specification does *)
Classified == Run.ok = ~MustReject /\ ~Unspecified
Schedule == Consecutive /\ OnTime /\ Prompt /\ Initial /\ Nothing /\ Complete /\ NotBeyond /\ Partial /\ Unwritten
Show == [run |-> r, phase |-> phase, step |-> step, frame |-> Len(frames), bad |-> bad, must |-> MustReject, table |-> Table.res, ok |-> Run.ok]
=============================================================================
