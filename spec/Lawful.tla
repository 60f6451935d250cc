------------------------------- MODULE Lawful -------------------------------
(* The front end with the laws as invariants. *)
EXTENDS Pipeline, Laws

CONSTANT LawSize        \* texts of up to so many clusters are checked

OneEach == \A i \in 1..Len(cnt) : cnt[i] = 1
\* A line is finished that was scanned, parsed, resolved without cause.
Small    == ph = "next" /\ Len(src) <= LawSize /\ OneEach
Scanned  == Small /\ sc.errs = <<>>
Parsed   == Scanned /\ ps.errs = <<>> /\ case.mode # "expr"
Resolved == Parsed /\ rs.errs = <<>> /\ ln = 1

TextInv    == Scanned => TextLaw(src, Placed(src, sc.toks))
NewlineInv == Scanned => NewlineLaw(src, Placed(src, sc.toks))
NestInv    == Scanned => NestLaw(src, Placed(src, sc.toks), sc.toks)
YieldInv   == Parsed => YieldLaw(sc.toks, ps.out)
TreeInv    == Parsed => TreeLaw(sc.toks, ps.out)
LoopInv    == Parsed => LoopLaw(ps.out)
BindInv    == Resolved => ScopeLaw(Ops, <<>>, rs.out)
RuleInv    == Resolved => RuleLaw(Ops)
=============================================================================
