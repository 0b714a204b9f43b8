------------------------------- MODULE Handlers -------------------------------
(* Chains of handlers and where tasks run.                                                                     *)
(* An event (route the tasks of a stage, declare the task count of a leaf, scale a leaf up) goes to the        *)
(* handlers of its kind, users' before built-in ones, in registration order, until one does not decline. A     *)
(* plan that a worker receives is rewritten by all its handlers in order. A handler that fails fails the query.*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
(* A chain: what every handler answers. First(ch): who decides; 0: nobody, the default applies.                *)
RECURSIVE FirstFrom(_, _)
FirstFrom(ch, j) == IF j > Len(ch) THEN 0 ELSE IF ch[j] # "none" THEN j ELSE FirstFrom(ch, j + 1)
First(ch) == FirstFrom(ch, 1)
Failures == {"err", "panic", "short", "long"}
(* the handlers an event is shown to *)
Shown(ch) == IF First(ch) = 0 THEN Len(ch) ELSE First(ch)
(* Defaults: tasks spread evenly; a single task goes to the coordinator's own worker if it has one, else to the *)
(* worker of a single-task stage below if there is one, else anywhere.                                         *)
Even(f, workers) == LET load(w) == Cardinality({t \in DOMAIN f : f[t] = w}) IN
  (\A t \in DOMAIN f : f[t] \in workers) /\ \A v, w \in workers : load(v) <= load(w) + 1
Default(f, workers, local, below) ==
  IF DOMAIN f # {0} THEN Even(f, workers)
  ELSE IF local >= 0 THEN f[0] = local
  ELSE IF below # {} THEN f[0] \in below
  ELSE f[0] \in workers
==============================================================================
