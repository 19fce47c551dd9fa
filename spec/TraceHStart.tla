---------------------------- MODULE TraceHStart ----------------------------
(* The start of a recorded run.  cfg: name, rkc, half, slow, n, fam, p (terms of HStart.tla; fam = "generic": p only has dx), extra (evaluations by which
   the method tests the problem)
     calls  n evaluations of fun at construction besides the one at the initial state; in: none of them beyond the first step's reach
     h0     h: log of the first attempted step
     pair   what, h, g: logs of the first step and of that for the changed problem ("mirror", "repeat", "timescale" (by 2^-3),
            "tighter", "faster", "longer")
     first  rej: rejections before the first accepted step; lag: log of the ratio of the longest of the first 12 steps to the first
     end    exc: type of an exception raised at construction, or ""                                                          *)
EXTENDS HStart, Sequences, FiniteSets, TLC, Json, IOUtils
If(b, x) == IF b THEN {x} ELSE {}
VARIABLES tr, l, st, cv
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
Tol == 13000
Exact == 60
Rej == 4
(* the position in a second order system, and a method that starts at order 1, allow for less *)
Lag(c) == IF c.slow THEN 15*Oct ELSE 9*Oct
Abs(x) == IF x < 0 THEN -x ELSE x
Start(c) == 0
Pairs(w, h, g) == CASE w = "timescale" -> Abs(h - 3*Oct - g) <= Exact
                    [] w = "faster" -> g <= h + Oct \div 4
                    [] w = "tighter" -> g <= h + Exact
                    [] w = "longer" -> g >= h - Oct \div 4
                    [] OTHER -> Abs(g - h) <= Exact
Viol(c, s, e) ==
    CASE e.k = "calls" -> If(e.n > MaxCalls(c.rkc, c.n) + c.extra, "start.calls") \cup If(~e.in, "start.reach")
      [] e.k = "h0" -> If(e.h = NONE, "start.none") \cup If(e.h > c.p.dx + Exact, "start.long")
                       \cup If(c.fam # "generic" /\ ~(LET h == First(c.rkc, c.fam, c.p) IN
                                                               Attempt(c.half, h - Tol, c.p.d) - Exact <= e.h /\ e.h <= Attempt(c.half, h + Tol, c.p.d) + Exact), "start.size")
      [] e.k = "pair" -> If(~Pairs(e.what, e.h, e.g), "start." \o e.what)
      [] e.k = "first" -> If(e.rej > Rej, "start.hopeless") \cup If(e.lag > Lag(c), "start.negligible")
      [] e.k = "end" -> If(e.exc # "", "start.raised")
Step(c, s, e) == s
Tags(c, s, e) == CASE e.k = "h0" -> {c.name \o "." \o c.fam} \cup If(c.fam # "generic", IF First(c.rkc, c.fam, c.p) >= c.p.dx THEN "capped" ELSE "inside")
                   [] e.k = "pair" -> {"pair." \o e.what \o "." \o c.name}
                   [] e.k = "first" -> {c.name \o ".first"} \cup If(e.rej > 0, "rejected")
                   [] OTHER -> {}
T == INSTANCE TraceKit
Init == T!Init
Next == T!Next
=============================================================================
