------------------------------- MODULE Shapes -------------------------------
(* Calling conventions.  A function of one point has one value per point, whatever
   the container the point arrives in; a batch has one value per row, in order.
   `known` remembers which points of the table an entry point has been asked about;
   the specification of a call is therefore the list of the points it must answer
   for, the shape of the answer, and that the argument is left alone. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Sim
VARIABLES p, known, hist, done
vars == <<p, known, hist, done>>
Rnd(S) == RandomElement(IF done THEN {} ELSE S)
Wt(q)  == q[Rnd(DOMAIN q)]

\* entry points: result per point is a number ("n1": (n,1), "n": (n,)) or a row ("nD")
Fns == [pt |-> "nD", inv |-> "nD", jac |-> "n",
        pdf |-> "n1", pdf_log |-> "n1", pdf_trans |-> "n1", log_pdf |-> "n1", pdf_grad |-> "grad", logpdf_grad |-> "grad", pdf_t |-> "n1",
        uniform |-> "n1", trap |-> "n1", spline |-> "n1", smooth |-> "n1", scipy |-> "n1", product |-> "n1", mvn |-> "n1",
        uniform_k |-> "n", trap_k |-> "n", product_k |-> "n", scipy_k |-> "n", smooth_k |-> "n", spline_k |-> "n", mvn_k |-> "n",
        prior_pdf |-> "n1", acq |-> "n", acq_log |-> "n", acq_noisy |-> "n",
        log_call |-> "log", log_add |-> "log"]
FnSeq == <<"pt", "inv", "jac", "pdf", "pdf_log", "pdf_trans", "log_pdf", "pdf_grad", "logpdf_grad", "pdf_t", "uniform", "trap", "spline", "smooth", "scipy", "product",
           "mvn", "uniform_k", "trap_k", "product_k", "scipy_k", "smooth_k", "spline_k", "mvn_k", "prior_pdf", "acq", "acq_log", "acq_noisy", "log_call", "log_add">>
Decorated == {"pt", "inv", "jac", "pdf", "pdf_log", "pdf_trans", "log_pdf", "pdf_grad", "logpdf_grad", "pdf_t"}
Priors    == {"uniform", "trap", "spline", "smooth", "scipy", "product", "mvn", "uniform_k", "trap_k", "product_k", "scipy_k", "smooth_k", "spline_k", "mvn_k", "prior_pdf"}
Acqs      == {"acq", "acq_log", "acq_noisy"}
Logs      == {"log_call", "log_add"}
\* containers
Batch  == {"batch", "ibatch", "fortran", "strided", "readonly"}
One    == {"flat", "iflat", "row", "irow", "rorow", "stridedflat"}
Forms(f, D) == IF f \in Decorated THEN Batch \cup One \cup {"list", "nested", "kw", "kwflat"} \cup (IF D = 1 THEN {"scalar", "int"} ELSE {})
               ELSE IF f \in Priors THEN Batch \cup One \cup (IF D = 1 THEN {"flatbatch", "iflatbatch"} ELSE {})
               ELSE IF f \in Acqs THEN Batch \cup One
               ELSE One \cup (IF D = 1 THEN {"zerod"} ELSE {})
Multi == Batch \cup {"nested", "kw", "flatbatch", "iflatbatch"}
IntForms == {"ibatch", "iflat", "irow", "int", "iflatbatch"}
\* points 1..4 have integer coordinates, 5..8 not
Pts(fm) == IF fm \in IntForms THEN 1..4 ELSE 1..8
ShapeOf(r, fm, n, D) ==
  LET two  == fm \in Multi \cup {"row", "irow", "rorow"}
      free == fm \in {"scalar", "int"}
  IN IF free THEN <<-1>>
     ELSE CASE r = "nD" -> IF two THEN <<n, D>> ELSE <<D>>
            [] r = "n1" -> IF two THEN <<n, 1>> ELSE <<1>>
            [] r = "n"  -> IF two THEN <<n>> ELSE <<>>
            [] r = "grad" -> IF two THEN <<n, 1>> ELSE <<1>>
            [] r = "log" -> <<>>
\* undecorated functions keep (n, 1) / (n,) for a flat vector too
Shape(f, fm, n, D) == IF f \in Priors /\ Fns[f] = "n1" THEN <<n, 1>> ELSE IF f \in Priors \cup Acqs THEN <<n>> ELSE ShapeOf(Fns[f], fm, n, D)

Init == p = [D |-> 0] /\ known = {} /\ hist = <<>> /\ done = FALSE
Make == /\ ~done /\ p.D = 0
        /\ \E q \in {TLCEval([D |-> Rnd(1..3), bnd |-> Wt(<<"none", "all", "some">>), ty |-> Wt(<<"logit", "probit", "student4">>),
                              K |-> Rnd(1..3), seed |-> Rnd(1..100000), noise |-> Rnd(0..2)])} :
             p' = q /\ hist' = <<[op |-> "make", p |-> q, exp |-> [ok |-> TRUE]]>>
        /\ UNCHANGED <<known, done>>
Call == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
        /\ \E f \in {TLCEval(Wt(FnSeq))} : \E fm \in {TLCEval(Rnd(Forms(f, p.D)))} :
             \E is \in {TLCEval([k \in 1..(IF fm \in Multi THEN Rnd(1..5) ELSE 1) |-> Rnd(Pts(fm))])} :
               /\ hist' = Append(hist, [op |-> "call", fn |-> f, form |-> fm, pts |-> is,
                                        exp |-> [rows |-> is, shape |-> Shape(f, fm, Len(is), p.D), args |-> TRUE]])
               /\ known' = known \cup {<<f, is[k]>> : k \in DOMAIN is}
        /\ UNCHANGED <<p, done>>
\* one coordinate too many or too few, or several rows where one point is wanted
Wrong == /\ ~done /\ p.D > 0 /\ Len(hist) < Depth
         /\ \E f \in {TLCEval(Wt(FnSeq))}, d \in {TLCEval(Rnd({1, 2, 3, 4} \ {p.D}))}, n \in {TLCEval(Rnd(2..3))} :
              hist' = Append(hist, [op |-> "wrong", fn |-> f, d |-> IF f \in Logs /\ p.D > 1 /\ d = 4 THEN p.D ELSE d, n |-> n, exp |-> [rejected |-> TRUE, unchanged |-> TRUE]])
         /\ UNCHANGED <<p, known, done>>
End == ~done /\ Len(hist) = Depth /\ done' = TRUE /\ UNCHANGED <<p, known, hist>>
Next == Make \/ Call \/ Call \/ Call \/ Call \/ Wrong \/ End
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(hist))
\* every batch shape has as many rows as points asked for
Rows == \A i \in DOMAIN hist : hist[i].op = "call" =>
          LET e == hist[i].exp IN Len(e.shape) = 2 => (e.shape[1] = Len(hist[i].pts) /\ e.shape[2] \in {1, p.D})
=============================================================================
