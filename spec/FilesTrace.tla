----------------------------- MODULE FilesTrace ------------------------------
(* Validates recorded histories of a directory in which files are created,  *)
(* changed and removed while validators look at them.                       *)
(*  [e |-> "new", fs]                                                       *)
(*  [e |-> "env", fs]                         somebody changed the files    *)
(*  [e |-> "check", v, paths, ok, class, fs]  a validation and what is left *)
(* fs is the listing of the directory afterwards.                           *)
EXTENDS FileValidators, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.SHARG_TRACE)
FsOf(nodes) == [p \in {nodes[i].path : i \in DOMAIN nodes} |-> LET i == CHOOSE i \in DOMAIN nodes : nodes[i].path = p IN nodes[i]]
VARIABLES l, fs
vars == <<l, fs>>
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Unspecified(v, ps) == \E i \in DOMAIN ps : ~SpecifiedPath(fs, v, ps[i])

TraceInit == l = 1 /\ fs = <<>>
TraceEnv  == (IsEvent("new") \/ IsEvent("env")) /\ fs' = FsOf(Trace[l].fs)
TraceCheck ==
    /\ IsEvent("check")
    /\ fs' = FsOf(Trace[l].fs)
    /\ LET t == Trace[l] IN
       \/ Unspecified(t.v, t.paths)
       \/ /\ t.aspect = "C17" =>
                /\ t.ok = AcceptsAll(fs, t.v, t.paths)
                /\ t.ok \/ t.class = "validation_error"
          /\ t.aspect = "C18" => (fs' = fs \/ fs' = Deviate(fs, t.v, t.paths))
TraceNext == TraceEnv \/ TraceCheck
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
