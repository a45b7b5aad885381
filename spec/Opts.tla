-------------------------------- MODULE Opts --------------------------------
(* Options: where the effective value of an option comes from, when options can
   still change, copies, and evaluation.  Mode "obj": sequences of operations on
   option objects built from generated option files.  Mode "vbmc": the options of a
   run (the real option files, the user's options, an additional option file).
   A value is [t, a, b]: integer a, truth value a, a*D+b, K -> a*K+b, the list in
   cell a, or for a run the default of the option (times 3/2 rounded up: "def15"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Mode
VARIABLES o, cells, hist, done
vars == <<o, cells, hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]
V(t, a, b) == [t |-> t, a |-> a, b |-> b]
Free  == {"foo", "bar", "spam", "zed"}                 \* any value
Nums  == {"max_fun_evals", "tol_stable_count"}         \* numbers
Upd   == {"active_sample_gp_update", "active_sample_vp_update", "search_acq_fcn"}
Noise == "specify_target_noise"
Names == Free \cup Nums \cup Upd \cup {Noise}
Num0  == Wt(<<V("i", Rnd(0..9), 0), V("i", Rnd(3..99), 0), V("D", Rnd(1..5), Rnd(-3..7))>>)
Val0(n) == IF n = Noise THEN V("b", Rnd(0..1), 0) ELSE IF n \in Nums THEN Num0
           ELSE Wt(<<Num0, V("b", Rnd(0..1), 0), V("fn", Rnd(1..4), Rnd(0..3)), V("l", Rnd(1..3), 0)>>)
\* (a user gives values, not expressions in D)
Usr(v)  == IF v.t = "D" THEN V("i", v.a, 0) ELSE v
Sub0(S, k) == TLCEval({n \in S : Rnd(1..k) = 1})
File0(k) == LET base == Sub0(Names, k) \cup {Wt(<<"foo", "bar", "max_fun_evals">>)} s == TLCEval(IF Rnd(1..2) = 1 THEN base \cup Nums ELSE base) IN [n \in s |-> TLCEval(Val0(n))]
User0(k) == LET s == Sub0(Names \cup {"eggs"}, k) IN [n \in s |-> TLCEval(Usr(Val0(n)))]
\* a map as a sequence of pairs
Pairs(f) == LET s == SetToSeq(DOMAIN f) IN [i \in DOMAIN s |-> <<s[i], f[s[i]]>>]

\* --- effective values; lists are fresh cells when read from a file or given by the user
Ceil15(a) == IF a >= 0 THEN (3 * a + 1) \div 2 ELSE -((-3 * a) \div 2)
Ev(v, D)  == IF v.t = "D" THEN V("i", v.a * D + v.b, 0) ELSE v
Lists(f)  == LET s == SetToSeq({n \in DOMAIN f : f[n].t = "l"}) IN s
\* give every list of f its own cell
Alloc(f, base) == LET s == Lists(f) IN [n \in DOMAIN f |-> IF f[n].t = "l" THEN V("l", base + CHOOSE i \in DOMAIN s : s[i] = n, 0) ELSE f[n]]
NewCells(f)    == LET s == Lists(f) IN [i \in DOMAIN s |-> [j \in 1..f[s[i]].a |-> j]]
Over(f, g)     == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
EvF(f, D)      == [n \in DOMAIN f |-> Ev(f[n], D)]
Restr(f, S)    == [n \in DOMAIN f \cap S |-> f[n]]
Str(v, cs) == CASE v.t = "i" -> "i" \o ToString(v.a) [] v.t = "b" -> IF v.a = 1 THEN "True" ELSE "False"
                [] v.t = "fn" -> "fn" \o ToString(v.a + v.b) \o "," \o ToString(4 * v.a + v.b)
                [] v.t = "l" -> "l" \o ToString(cs[v.a]) [] v.t = "none" -> "None" [] v.t = "viqr" -> "[AcqFcnVIQR]"
                [] OTHER -> v.t
View(x, cs) == [val |-> [n \in DOMAIN x.val |-> Str(x.val[n], cs)], user |-> [n \in Names \cup {"eggs"} |-> n \in x.user], init |-> x.init, len |-> Cardinality(DOMAIN x.val) + 1]
Views(ob, cs) == [i \in DOMAIN ob |-> View(ob[i], cs)]
Log1(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e @@ [objs |-> Views(o', cells')]])
None == V("none", 0, 0)
\* the defaults that depend on noise, given the maker of scaled values
NoiseUpd(x) == [x EXCEPT !.val = Over(@, Restr(("max_fun_evals" :> V("i", Ceil15(x.val["max_fun_evals"].a), 0)) @@ ("tol_stable_count" :> V("i", Ceil15(x.val["tol_stable_count"].a), 0))
                                               @@ [n \in {"active_sample_gp_update", "active_sample_vp_update"} |-> V("b", 1, 0)] @@ ("search_acq_fcn" :> V("viqr", 0, 0)), Names \ x.user))]

Init == o = <<>> /\ cells = <<>> /\ hist = <<>> /\ done = FALSE
Can == ~done /\ Mode = "obj" /\ Len(o) > 0 /\ Len(hist) < Depth
Make == /\ ~done /\ Mode = "obj" /\ o = <<>>
        /\ \E f \in {TLCEval(File0(2))}, u \in {TLCEval(User0(3))}, D \in {TLCEval(Rnd(1..4))} :
             LET ff == Alloc(EvF(f, D), 0) c1 == NewCells(f) uu == Alloc(u, Len(c1))
             IN /\ o' = <<[val |-> Over(ff, uu), user |-> DOMAIN u, init |-> FALSE]>> /\ cells' = c1 \o NewCells(u)
                /\ Log1("make", [file |-> Pairs(f), user |-> Pairs(u), D |-> D], [err |-> "", same |-> TRUE])
        /\ UNCHANGED done
Which == {TLCEval(Rnd(DOMAIN o))}
Set1(i, x) == o' = [o EXCEPT ![i] = x]
Stay == UNCHANGED <<o, cells>>
LoadF == /\ Can /\ Rnd(1..2) = 1
         /\ \E i \in Which, f \in {TLCEval(File0(3))}, D \in {TLCEval(Rnd(1..4))} :
              LET g == Restr(f, Names \ o[i].user) IN
              IF o[i].init THEN Stay /\ Log1("load", [i |-> i, file |-> Pairs(f), D |-> D], [err |-> IF DOMAIN g = {} THEN "" ELSE "AttributeError"])
              ELSE /\ Set1(i, [o[i] EXCEPT !.val = Over(@, Alloc(EvF(g, D), Len(cells)))]) /\ cells' = cells \o NewCells(g)
                   /\ Log1("load", [i |-> i, file |-> Pairs(f), D |-> D], [err |-> ""])
         /\ UNCHANGED done
BadFile == /\ Can /\ Rnd(1..4) = 1
           /\ \E i \in Which, k \in {TLCEval(Wt(<<"missing", "empty", "nosection">>))} : Stay /\ Log1("badfile", [i |-> i, kind |-> k], [err |-> "ValueError"])
           /\ UNCHANGED done
\* names: allowed by files made of the given sets of names
Validate == /\ Can
            /\ \E i \in Which, extra \in {TLCEval(IF Rnd(1..2) = 1 THEN {} ELSE Sub0(Names \cup {"eggs"}, 2))} :
               \E drop \in {TLCEval(IF Rnd(1..2) = 1 THEN {} ELSE {Rnd(Names)})} :
                 LET all == ((DOMAIN o[i].val \ {"eggs"}) \cup extra \cup {"foo"}) \ drop cut == SetToSeq(all)
                     good == DOMAIN o[i].val \subseteq all
                 IN /\ IF good THEN Set1(i, [o[i] EXCEPT !.init = TRUE]) ELSE o' = o
                    /\ UNCHANGED cells
                    /\ all # {}
                    /\ Log1("validate", [i |-> i, names |-> cut, k |-> Rnd(0..(Len(cut) - 1))], [err |-> IF good THEN "" ELSE "ValueError"])
            /\ UNCHANGED done
\* assignment, update, in-place union, default setting
SetOps == /\ Can
          /\ \E i \in Which, how \in {TLCEval(Wt(<<"set", "update", "ior", "force", "setdefault", "kwupdate">>))}, n \in {TLCEval(Rnd(Names))}, m \in {TLCEval(Rnd(Names))} :
             \E s \in {TLCEval(IF how \in {"update", "ior", "kwupdate"} THEN {n, m} ELSE {n})} :
             \E g0 \in {TLCEval([x \in s |-> TLCEval(Usr(Val0(x)))])} :
               LET keep == how = "setdefault" /\ n \in DOMAIN o[i].val
                   bad == o[i].init /\ how # "force" /\ ~keep
               IN /\ IF bad \/ keep THEN Stay
                     ELSE Set1(i, [o[i] EXCEPT !.val = Over(@, Alloc(g0, Len(cells)))]) /\ cells' = cells \o NewCells(g0)
                  /\ Log1("set", [i |-> i, how |-> how, g |-> Pairs(g0)], [err |-> IF bad THEN "AttributeError" ELSE ""])
          /\ UNCHANGED done
Del == /\ Can /\ Rnd(1..3) = 1
       /\ \E i \in {k \in DOMAIN o : ~o[k].init} : \E n \in {TLCEval(Rnd(Names \ o[i].user))} :
            /\ Set1(i, [o[i] EXCEPT !.val = Restr(@, (Names \ {n}) \cup {"eggs"})]) /\ UNCHANGED cells
            /\ Log1("del", [i |-> i, n |-> n, pop |-> Rnd({TRUE, FALSE})], [err |-> IF n \in DOMAIN o[i].val THEN "" ELSE "KeyError"])
       /\ UNCHANGED done
\* evaluation with the term K (and maybe one more)
Eval == /\ Can
        /\ \E i \in Which, n \in {TLCEval(Rnd(Names))}, k \in {TLCEval(Rnd(1..20))}, more \in {TLCEval(Rnd(1..4) = 1)} :
             LET v == IF n \in DOMAIN o[i].val THEN o[i].val[n] ELSE None
             IN /\ Stay
                /\ Log1("eval", [i |-> i, n |-> n, k |-> k, more |-> more],
                        [res |-> IF v.t = "fn" THEN IF more THEN "" ELSE "i" \o ToString(v.a * k + v.b) ELSE Str(v, cells),
                         err |-> IF v.t = "fn" /\ more THEN "TypeError" ELSE ""])
        /\ UNCHANGED done
Defaults == /\ Can
            /\ \E i \in Which :
                 LET noisy == Noise \in DOMAIN o[i].val /\ o[i].val[Noise].a = 1
                     x == NoiseUpd(o[i])
                 IN /\ noisy => Nums \subseteq DOMAIN o[i].val
                    /\ UNCHANGED cells
                    /\ IF noisy /\ ~o[i].init THEN Set1(i, x) ELSE o' = o
                    /\ Log1("defaults", [i |-> i], [err |-> IF noisy /\ o[i].init /\ (Nums \cup Upd) \ o[i].user # {} THEN "AttributeError" ELSE ""])
            /\ UNCHANGED done
\* the list behind an option is changed in place
Mutate == /\ Can
          /\ \E i \in Which : \E n \in {m \in DOMAIN o[i].val : o[i].val[m].t = "l"} :
               /\ cells' = [cells EXCEPT ![o[i].val[n].a] = Append(@, 0)] /\ UNCHANGED o
               /\ Log1("mutate", [i |-> i, n |-> n], [err |-> ""])
          /\ UNCHANGED done
\* copies: shallow ones share the lists, deep ones and reread ones do not
Equal(x, y, cs) == x.user = y.user /\ DOMAIN x.val = DOMAIN y.val
                   /\ \A n \in DOMAIN x.val : IF x.val[n].t = "l" /\ y.val[n].t = "l" THEN cs[x.val[n].a] = cs[y.val[n].a] ELSE x.val[n] = y.val[n]
Copy == /\ Can
        /\ \E how \in {TLCEval(Wt(<<"copy", "deepcopy", "pickle">>))}, i \in Which :
             LET x == o[i] s == SetToSeq({n \in DOMAIN x.val : x.val[n].t = "l"})
                 deep == [n \in DOMAIN x.val |-> IF x.val[n].t = "l" THEN V("l", Len(cells) + CHOOSE j \in DOMAIN s : s[j] = n, 0) ELSE x.val[n]]
             IN /\ cells' = IF how = "copy" THEN cells ELSE cells \o [j \in DOMAIN s |-> cells[x.val[s[j]].a]]
                /\ o' = <<x, IF how = "copy" THEN x ELSE [x EXCEPT !.val = deep]>>
                /\ Log1("copy", [i |-> i, how |-> how],
                        [err |-> "", eq |-> IF how # "copy" /\ \E n \in DOMAIN x.val : x.val[n].t = "viqr" \/ (how = "pickle" /\ x.val[n].t = "fn") THEN "any" ELSE "yes"])
        /\ UNCHANGED done
\* a new object from a file and the user's options of another one
InitFrom == /\ Can
            /\ \E i \in Which, f \in {TLCEval(File0(2))}, D \in {TLCEval(Rnd(1..4))} :
                 LET x == o[i] ff == Alloc(EvF(f, D), Len(cells))
                     uu == [n \in x.user |-> IF n \in DOMAIN x.val THEN x.val[n] ELSE None]
                 IN /\ o' = <<x, [val |-> Over(ff, uu), user |-> x.user, init |-> FALSE]>> /\ cells' = cells \o NewCells(f)
                    /\ Log1("initfrom", [i |-> i, file |-> Pairs(f), D |-> D], [err |-> ""])
            /\ UNCHANGED done
Cmp == /\ Can /\ Len(o) = 2
       /\ Stay /\ Log1("cmp", [i |-> 1], [err |-> "", eq |-> IF \A n \in DOMAIN o[1].val : o[1].val[n].t \notin {"viqr", "fn"} THEN IF Equal(o[1], o[2], cells) THEN "yes" ELSE "no" ELSE "any"])
       /\ UNCHANGED done

\* ------------------------------------------------------------ options of a run
RealNum == {"max_iter", "min_iter", "warmup_keep_threshold", "tol_skl", "min_fun_evals", "fun_eval_start", "max_fun_evals", "tol_stable_count"}
RealFn  == {"ns_ent", "k_fun_max", "ns_elbo"}
RealAny == {"active_sample_gp_update", "active_sample_vp_update"}
RVal(n, file) == IF n = Noise THEN V("b", Wt(<<0, 1, 1>>), 0)
                 ELSE IF n \in RealFn THEN Wt(<<V("i", Rnd(1..9), 0), V("fn", Rnd(1..4), Rnd(0..3))>>)
                 ELSE IF n \in RealAny THEN V("b", Rnd(0..1), 0)
                 ELSE IF file /\ Rnd(1..2) = 1 THEN V("D", Rnd(1..5), Rnd(1..7)) ELSE V("i", Rnd(1..99), 0)
Real == RealNum \cup RealFn \cup RealAny \cup {Noise}
Pref(S) == LET s == Sub0(S, 4) IN TLCEval(IF Rnd(1..2) = 1 THEN s \cup {Noise} ELSE s)
RFile == LET s == Pref(Real) \cup Sub0({"my_option"}, 3) \cup {"max_iter"} IN [n \in s |-> TLCEval(RVal(n, TRUE))]
RUser == LET s == Pref(Real) \cup Sub0({"my_option", "no_such_option"}, 6) IN [n \in s |-> TLCEval(RVal(n, FALSE))]
RunVal(u, f, D) ==
  LET set == Over(EvF(f, D), u)
      noisy == Noise \in DOMAIN set /\ set[Noise].a = 1
      nd == IF noisy THEN [n \in {"max_fun_evals", "tol_stable_count"} |-> V("def15", 0, 0)] @@ [n \in RealAny |-> V("b", 1, 0)] @@ ("search_acq_fcn" :> V("viqr", 0, 0))
            ELSE [n \in {"max_fun_evals", "tol_stable_count", "search_acq_fcn"} \cup RealAny |-> V("def", 0, 0)]
  IN Over(nd, set)
RView(x) == [val |-> [n \in DOMAIN x.val |-> Str(x.val[n], <<>>)], rest |-> <<>>]
Log2(op, a, e) == hist' = Append(hist, [op |-> op, a |-> a, exp |-> e])
RMake == /\ ~done /\ Mode = "vbmc" /\ o = <<>>
         /\ \E D \in {TLCEval(Rnd(1..3))}, u \in {TLCEval(RUser)}, nf \in {TLCEval(Rnd(1..3) = 1)} : \E f \in {TLCEval(IF nf THEN [n \in {} |-> None] ELSE RFile)} :
              LET known == Real \cup {"search_acq_fcn"} \cup DOMAIN f
                  bad == ~(DOMAIN u \subseteq known)
                  x == [val |-> RunVal(u, f, D), user |-> DOMAIN u, init |-> TRUE, D |-> D]
              IN /\ o' = IF bad THEN <<>> ELSE <<x>>
                 /\ Log2("run", [D |-> D, user |-> Pairs(u), file |-> Pairs(f), nofile |-> nf], IF bad THEN [err |-> "ValueError", same |-> TRUE] ELSE [err |-> "", same |-> TRUE, v |-> RView(x)])
                 /\ done' = bad
         /\ UNCHANGED cells
RCan == ~done /\ Mode = "vbmc" /\ Len(o) > 0 /\ Len(hist) < Depth
RSet == /\ RCan
        /\ \E how \in {TLCEval(Wt(<<"set", "update", "ior", "kwupdate">>))}, n \in {TLCEval(Rnd(Real \cup {"no_such_option"}))} :
           \E v \in {TLCEval(RVal(n, FALSE))} : Log2("rset", [how |-> how, n |-> n, v |-> v], [err |-> "AttributeError", v |-> RView(o[1])])
        /\ UNCHANGED <<o, cells, done>>
\* saved and loaded again, with new options: known names replace, unknown ones are rejected
RLoad == /\ RCan
         /\ \E u \in {TLCEval(LET s == Sub0(Real \ {Noise}, 5) \cup Sub0({"no_such_option"}, 4) IN [n \in s |-> TLCEval(RVal(n, FALSE))])} :
              LET bad == ~(DOMAIN u \subseteq DOMAIN o[1].val \cup Real) x == [o[1] EXCEPT !.val = Over(@, u)]
              IN /\ o' = IF bad THEN o ELSE <<x>>
                 /\ Log2("rload", [user |-> Pairs(u)], [err |-> IF bad THEN "ValueError" ELSE "", v |-> RView(o'[1]), same |-> TRUE])
         /\ UNCHANGED <<cells, done>>
RCopy == /\ RCan
         /\ Log2("rcopy", [how |-> Wt(<<"copy", "deepcopy">>)], [err |-> "AttributeError", v |-> RView(o[1])])
         /\ UNCHANGED <<o, cells, done>>
Stop == /\ ~done /\ Len(hist) >= Depth /\ done' = TRUE /\ UNCHANGED <<o, cells, hist>>
Next == Make \/ LoadF \/ BadFile \/ Validate \/ SetOps \/ Del \/ Eval \/ Defaults \/ Mutate \/ Copy \/ InitFrom \/ Cmp \/ RMake \/ RSet \/ RLoad \/ RCopy \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
\* what the specification itself guarantees
UserWins == \A i \in DOMAIN o : Mode = "obj" /\ hist # <<>> /\ hist[Len(hist)].op \in {"make", "load", "defaults"} => o[i].user \subseteq DOMAIN o[i].val \cup {"eggs"}
Frozen == [][\A i \in DOMAIN o : (Mode = "obj" /\ i = 1 /\ o[i].init /\ hist' # hist /\ hist'[Len(hist')].op \in {"load", "defaults", "validate"}) => o'[i].val = o[i].val]_vars
=============================================================================
