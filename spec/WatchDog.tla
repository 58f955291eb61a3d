------------------------------ MODULE WatchDog -------------------------------
(* C25. A watchdog, the caller's stop state and the token that the watchdog gives. Times are virtual *)
(* microseconds. "Strict": time passes only while nobody can go on.                                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES strict,
          phase,    \* "none", "making", "alive", "ending", "gone"
          since,    \* when the construction began
          timeout,
          log,      \* "no", "in", "done": the call of the log function
          cancel,   \* "no", "called", "done": a stop of the caller's token
          must,     \* a moment has passed when the given token must be stopped
          asks      \* thread -> must when its query began
vars == <<strict, phase, since, timeout, log, cancel, must, asks>>
Init == /\ strict = FALSE /\ phase = "none" /\ since = 0 /\ timeout = 0 /\ log = "no" /\ cancel = "no" /\ must = FALSE /\ asks = <<>>
Reset == /\ strict' = FALSE /\ phase' = "none" /\ since' = 0 /\ timeout' = 0 /\ log' = "no" /\ cancel' = "no" /\ must' = FALSE /\ asks' = <<>>
Mode(b) == strict' = b /\ UNCHANGED <<phase, since, timeout, log, cancel, must, asks>>
New(to, n) == /\ phase = "none" /\ phase' = "making" /\ since' = n /\ timeout' = to
              /\ must' = (cancel = "done") /\ UNCHANGED <<strict, log, cancel, asks>>
Newd == phase = "making" /\ phase' = "alive" /\ UNCHANGED <<strict, since, timeout, log, cancel, must, asks>>
\* The log function: once, after the timeout, while the watchdog lives
Log(n) == /\ phase \in {"making", "alive", "ending"} /\ log = "no" /\ n >= since + timeout
          /\ log' = "in" /\ UNCHANGED <<strict, phase, since, timeout, cancel, must, asks>>
Logged == log = "in" /\ log' = "done" /\ UNCHANGED <<strict, phase, since, timeout, cancel, must, asks>>
Cancel == cancel' = (IF cancel = "no" THEN "called" ELSE cancel) /\ UNCHANGED <<strict, phase, since, timeout, log, must, asks>>
\* Only the request that succeeded has waited for the callbacks
Canceled(won) == /\ cancel # "no" /\ cancel' = "done" /\ must' = (must \/ (won /\ phase \in {"making", "alive"}))
            /\ UNCHANGED <<strict, phase, since, timeout, log, asks>>
Del == phase = "alive" /\ phase' = "ending" /\ UNCHANGED <<strict, since, timeout, log, cancel, must, asks>>
Deld == phase = "ending" /\ log # "in" /\ phase' = "gone" /\ UNCHANGED <<strict, since, timeout, log, cancel, must, asks>>
\* Nothing more happens without the passage of time (busy: the log function takes its time)
Idle(n) == /\ phase # "making"
           /\ phase = "ending" => log = "in"
           /\ (phase = "alive" /\ n >= since + timeout) => (log # "no" \/ cancel # "no")
           /\ must' = (must \/ (phase = "alive" /\ log = "done"))
           /\ UNCHANGED <<strict, phase, since, timeout, log, cancel, asks>>
Ask(t) == /\ t \notin DOMAIN asks /\ asks' = [x \in DOMAIN asks \cup {t} |-> IF x = t THEN must ELSE asks[x]]
          /\ UNCHANGED <<strict, phase, since, timeout, log, cancel, must>>
Asked(t, b) == /\ t \in DOMAIN asks
               /\ IF b THEN log = "done" \/ cancel # "no" \/ phase \in {"ending", "gone"} ELSE ~asks[t]
               /\ asks' = [x \in DOMAIN asks \ {t} |-> asks[x]]
               /\ UNCHANGED <<strict, phase, since, timeout, log, cancel, must>>
Finished == phase = "gone" /\ log # "in" /\ asks = <<>> /\ UNCHANGED vars
Hidden == FALSE /\ UNCHANGED vars
Step(o) == LET k == o[1] IN
    CASE k = "mode" -> Mode(o[2] = 1)
      [] k = "new" -> New(o[2], o[3])
      [] k = "newd" -> Newd
      [] k = "log" -> Log(o[2]) /\ (strict => (o[2] = since + (IF timeout > 0 THEN timeout ELSE 0)))
      [] k = "logged" -> Logged
      [] k = "cancel" -> Cancel
      [] k = "canceled" -> Canceled(o[2] = 1)
      [] k = "del" -> Del
      [] k = "deld" -> Deld
      [] k = "idle" -> Idle(o[2])
      [] k = "ask" -> Ask(o[2])
      [] k = "asked" -> Asked(o[2], o[3] = 1)
      [] k = "finished" -> Finished
      [] OTHER -> FALSE
Inv == /\ log # "no" => phase # "none"
       /\ (phase = "gone") => (log # "in")
=============================================================================
