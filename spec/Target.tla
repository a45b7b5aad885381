------------------------------- MODULE Target -------------------------------
(* The target built from what the user provides: a log-joint alone, or a
   log-likelihood with a prior given as an object, a distribution, a list of
   marginals or functions.  Each evaluation calls each user function once, with the
   same point, and logs the sum. *)
EXTENDS Term, TLC, Json
CONSTANTS Depth, Sim
VARIABLES p, log, hist, done
vars == <<p, log, hist, done>>
Rnd(S)  == RandomElement(IF done THEN {} ELSE S)
Wt(q)   == q[Rnd(DOMAIN q)]

Kinds == <<"joint", "object", "object", "product", "scipy", "mvn", "list", "list", "func", "func", "funcsample", "sampleonly", "own", "ownsample", "userobj">>
Marg  == <<"uniform", "norm", "smooth", "expon">>
Coord == [k |-> Wt(Marg), a |-> Rnd(-6..-1), b |-> Rnd(1..6), w |-> Rnd(1..4)]
Setup == LET D == Rnd(1..3) kd == Wt(Kinds) k0 == Wt(<<"uniform", "smooth">>)
         IN [D |-> D, kind |-> kd, lev |-> Rnd(0..2), bnd |-> Rnd({TRUE, FALSE}), ret |-> Wt(<<"float", "npfloat", "arr1", "arr11", "arr0">>),
             pret |-> Wt(<<"float", "npfloat", "arr1", "arr11">>),
             cs |-> [i \in 1..D |-> TLCEval(IF kd \in {"object", "own", "ownsample"} THEN [Coord EXCEPT !.k = k0] ELSE IF kd = "scipy" THEN [Coord EXCEPT !.k = Wt(<<"norm", "expon">>)]
                                            ELSE IF kd = "mvn" THEN [Coord EXCEPT !.k = "norm"] ELSE Coord)],
             c |-> Rnd(-50..50), g |-> [i \in 1..D |-> TLCEval(Rnd(-9..9))], pc |-> Rnd(-50..50), pg |-> [i \in 1..D |-> TLCEval(Rnd(-9..9))]]
Valid(q) == /\ q.kind \in {"scipy"} => q.D = 1
            /\ q.kind = "mvn" => q.D > 1
\* coordinates in quarters
D1(m, h) == CASE m.k = "uniform" -> IF h < 4 * m.a \/ h > 4 * m.b THEN "-inf" ELSE Neg(Log(m.b - m.a))
              [] m.k = "norm"    -> Sub(LogPhi(Rat(h - 4 * m.a, 4 * m.w)), Log(m.w))
              [] m.k = "expon"   -> IF h < 4 * m.a THEN "-inf" ELSE Sub(Neg(Rat(h - 4 * m.a, 4 * m.w)), Log(m.w))
              [] m.k = "smooth"  -> LET d == IF h < 4 * m.a THEN h - 4 * m.a ELSE IF h > 4 * m.b THEN h - 4 * m.b ELSE 0
                                    IN Sub(Neg(Half(Sqr(Rat(d, 4 * m.w)))), Log(Add(Mul(Sqrt(Mul(2, "pi")), m.w), m.b - m.a)))
Lin(c, g, x) == Add(c, SumT([i \in DOMAIN g |-> Rat(g[i] * x[i], 4)]))
LL(x)  == Sub(Lin(p.c, p.g, x), SumT([i \in DOMAIN x |-> Rat(x[i] * x[i], 16)]))
LP(x)  == IF p.kind \in {"joint", "sampleonly"} THEN 0
          ELSE IF p.kind \in {"func", "funcsample", "userobj"} THEN Lin(p.pc, p.pg, x)
          ELSE SumT([i \in 1..p.D |-> D1(p.cs[i], x[i])])
Inside(x) == \A i \in 1..p.D : LET m == p.cs[i] IN (m.k = "uniform" => 4 * m.a <= x[i] /\ x[i] <= 4 * m.b) /\ (m.k = "expon" => 4 * m.a <= x[i])
Proper(x) == p.kind \in {"joint", "sampleonly", "func", "funcsample", "userobj"} \/ Inside(x)

Init == p = [D |-> 0] /\ log = <<>> /\ hist = <<>> /\ done = FALSE
Make == /\ ~done /\ p.D = 0
        /\ \E q \in {TLCEval(Setup)} : Valid(q) /\ p' = q
              /\ hist' = <<[op |-> "make", p |-> q, exp |-> [prior |-> q.kind # "joint", lik |-> q.kind \notin {"joint", "sampleonly"}, calls |-> 0]]>>
        /\ UNCHANGED <<log, done>>
\* an evaluation at a fresh point of the original space (quarters, inside the hard bounds -8..8)
Eval == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
        /\ \E x \in {TLCEval([i \in 1..p.D |-> Rnd(-31..31)])}, sd \in {TLCEval(Rnd(1..8))}, dir \in {TLCEval(Rnd({TRUE, FALSE, FALSE}))} :
             /\ x \notin {log[i] : i \in DOMAIN log}
             /\ log' = IF Proper(x) /\ ~dir THEN Append(log, x) ELSE log
             /\ hist' = Append(hist, [op |-> "eval", x |-> x, sd |-> sd, direct |-> dir,
                  exp |-> [raised |-> IF Proper(x) \/ dir THEN "none" ELSE "ValueError",
                           y |-> E(Add(LL(x), LP(x))), sd |-> IF p.lev = 2 THEN E(Rat(sd, 4)) ELSE IF p.lev = 1 /\ ~dir THEN 1 ELSE 0,
                           lik |-> 1, lp |-> IF p.kind \in {"func", "funcsample", "userobj"} THEN 1 ELSE 0, same |-> TRUE,
                           n |-> Len(log'), count |-> Len(log')]])
        /\ UNCHANGED <<p, done>>
\* a failing user function: the error reaches the user, nothing is logged
Fail == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
        /\ \E x \in {TLCEval([i \in 1..p.D |-> Rnd(-31..31)])}, how \in {TLCEval(Wt(<<"lik", "lp", "nan", "badsd">>))} :
             /\ how = "lp" => p.kind \in {"func", "funcsample", "userobj"}
             /\ how = "badsd" => p.lev = 2
             /\ hist' = Append(hist, [op |-> "fail", x |-> x, how |-> how, exp |-> [raised |-> IF how \in {"lik", "lp"} THEN "KeyError" ELSE "ValueError", n |-> Len(log), count |-> Len(log)]])
        /\ UNCHANGED <<p, log, done>>
\* specifications that conflict or are ill-typed
Bads == << <<"function as prior", "TypeError">>, <<"number as prior", "TypeError">>, <<"string as prior", "TypeError">>, <<"tuple of marginals", "TypeError">>, <<"dict as prior", "TypeError">>,
           <<"unfrozen distribution", "TypeError">>, <<"discrete distribution", "TypeError">>, <<"class as prior", "TypeError">>,
           <<"object and another log-prior", "ValueError">>, <<"object and another sampler", "ValueError">>, <<"list and log-prior", "ValueError">>, <<"distribution and log-prior", "ValueError">>,
           <<"dimension too large", "ValueError">>, <<"dimension too small", "ValueError">>, <<"list too long", "ValueError">>, <<"empty list", "ValueError">>, <<"wide marginal", "ValueError">>,
           <<"number in list", "TypeError">>, <<"function in list", "TypeError">>, <<"number as log-prior", "TypeError">>, <<"number as sampler", "TypeError">>,
           <<"log-prior and number as sampler", "TypeError">>, <<"sampler and number as log-prior", "TypeError">>, <<"array as log-prior", "TypeError">> >>
Conflict == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
            /\ \E b \in {TLCEval(Wt(Bads))} : hist' = Append(hist, [op |-> "conflict", what |-> b[1], exp |-> [raised |-> b[2], calls |-> 0]])
            /\ UNCHANGED <<p, log, done>>
\* the first iteration of a real run (seldom): as many calls of each function as evaluations
Run == /\ ~done /\ p.D > 0 /\ Len(hist) = Depth - 1 /\ log = <<>> /\ p.kind \notin {"product", "list"} /\ Rnd(1..3) = 1
       /\ \A i \in 1..p.D : p.cs[i].k \in {"norm", "smooth"}
       /\ hist' = Append(hist, [op |-> "run", exp |-> [each |-> TRUE, same |-> TRUE, sums |-> TRUE]])
       /\ UNCHANGED <<p, log, done>>
End == ~done /\ Len(hist) = Depth /\ done' = TRUE /\ UNCHANGED <<p, log, hist>>
Next == Make \/ Eval \/ Eval \/ Eval \/ Fail \/ Conflict \/ Conflict \/ Run \/ End
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
Distinct == \A i, j \in DOMAIN log : log[i] = log[j] => i = j
=============================================================================
