------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The grammar of jtran/whitespace over the tokens of module Scanner, as   *)
(* recursive operators, one per construct.                                 *)
(*                                                                         *)
(* g   what the parser works on: g.t tokens (the last one is Eof), g.loop  *)
(*     "inside a loop of this function" (an inherited attribute), g.trail  *)
(*     "an expression may end the text without a newline" (REPL lines)     *)
(* i   index of the current token; it never passes Eof                     *)
(*                                                                         *)
(* A result is [ok, v, i, e]: the node v and the index after it, or the    *)
(* error cause e and the index at which it was noticed.                    *)
(*                                                                         *)
(* Nodes are tuples <<tag, ...>>; a location is <<line, column>>.          *)
(***************************************************************************)
EXTENDS Scanner

MaxArgs == 255

K(g, i)  == g.t[i].k
Ahead(g, i, d) == IF i + d <= Len(g.t) THEN g.t[i + d].k ELSE ""
At1(g, i) == <<g.t[i].l, g.t[i].c>>            \* location of token i

Ok(v, i)   == [ok |-> TRUE,  v |-> v,    i |-> i, e |-> <<>>]
Fail(i, e) == [ok |-> FALSE, v |-> <<>>, i |-> i, e |-> <<e>>]
Here(g, i, m) == Fail(i, ErrAt(g.t[i].l, g.t[i].c, g.t[i].x, m))
Before(g, i, m) ==
  IF i = 1 THEN Fail(i, Err(1, 1, m))
  ELSE Fail(i, ErrAt(g.t[i-1].l, g.t[i-1].c, g.t[i-1].x, m))

Bind(r, F(_)) == IF r.ok THEN F(r) ELSE r
\* Step over token i if it has kind k (the end is never stepped over).
Opt(g, i, k)  == IF K(g, i) = k THEN i + 1 ELSE i
\* Demand kinds ks at i, then continue after it.
Need(g, i, ks, m, F(_)) == IF K(g, i) \in ks THEN F(i + 1) ELSE Here(g, i, m)
NeedEnd(g, i, k, m, F(_)) == Need(g, i, {k}, m, F)

Parens == {"LeftParen", "LeftParenAbutting"}

---------------------------------------------------------------------------
(* Expressions *)

\* Binary operators, loosest first; each level is left-associative.
Levels == <<
  ("Or" :> "Or"), ("And" :> "And"),
  ("BangEqual" :> "NotEqual") @@ ("EqualEqual" :> "Equal"),
  ("Less" :> "Less") @@ ("LessEqual" :> "LessEqual") @@
    ("Greater" :> "Greater") @@ ("GreaterEqual" :> "GreaterEqual"),
  ("Plus" :> "Plus") @@ ("Minus" :> "Minus"),
  ("Star" :> "Multiply") @@ ("Slash" :> "Divide") >>
Prefix == ("Bang" :> "Not") @@ ("Minus" :> "Minus")
\* What may begin the arguments of a call without parentheses.
JuxtaStart == {"False", "True", "Nil", "Number", "String", "Identifier",
               "Fun", "LeftParen", "LeftBrace", "Super"}

RECURSIVE Expr(_, _), Bin(_, _, _), BinRest(_, _, _, _), Unary(_, _),
          Call(_, _), CallRest(_, _, _), Args(_, _, _), Primary(_, _),
          Elements(_, _, _), Entries(_, _, _), Params(_, _, _),
          Statement(_, _), Declaration(_, _), Block(_, _, _, _),
          Methods(_, _, _, _)

\* assignment, the loosest and right-associative
Expr(g, i) ==
  Bind(IF K(g, i) = "Indent"        \* an indented (map) expression
       THEN Bind(Bin(g, i + 1, 1), LAMBDA r :
              LET j == Opt(g, r.i, "Terminator")
              IN  Need(g, j, {"Outdent"},
                       "Expect outdent after indented expression.",
                       LAMBDA k : Ok(r.v, k)))
       ELSE Bin(g, i, 1),
    LAMBDA r :
      IF K(g, r.i) # "Equal" THEN r
      ELSE LET loc == At1(g, r.i)
               t   == r.v
           IN  Bind(Expr(g, r.i + 1), LAMBDA q :
                 CASE t[1] = "Get"      -> Ok(<<"Set", t[2], t[3], q.v, loc>>, q.i)
                   [] t[1] = "GetIndex" -> Ok(<<"SetIndex", t[2], t[3], q.v, loc>>, q.i)
                   [] t[1] = "Variable" /\ t[2] # "this"
                                        -> Ok(<<"Assign", t[2], q.v, loc>>, q.i)
                   [] OTHER -> Fail(q.i, ErrAt(loc[1], loc[2], "=",
                                               "Invalid assignment target."))))

Bin(g, i, lv) ==
  IF lv > Len(Levels) THEN Unary(g, i)
  ELSE Bind(Bin(g, i, lv + 1), LAMBDA r : BinRest(g, r.i, r.v, lv))
BinRest(g, i, left, lv) ==
  IF K(g, i) \in DOMAIN Levels[lv]
  THEN LET op == Levels[lv][K(g, i)]
       IN  Bind(Bin(g, i + 1, lv + 1), LAMBDA r :
             BinRest(g, r.i,
               IF lv <= 2 THEN <<"Logical", left, op, r.v>>
               ELSE <<"Binary", left, op, r.v, At1(g, i)>>, lv))
  ELSE Ok(left, i)

Unary(g, i) ==
  IF K(g, i) \in DOMAIN Prefix
  THEN Bind(Unary(g, i + 1), LAMBDA r :
         Ok(<<"Unary", Prefix[K(g, i)], r.v, At1(g, i)>>, r.i))
  ELSE Call(g, i)

Call(g, i) == Bind(Primary(g, i), LAMBDA r : CallRest(g, r.i, r.v))
CallRest(g, i, f) ==
  CASE K(g, i) = "Dot" ->
         Need(g, i + 1, {"Identifier"}, "Expect property name after '.'.",
           LAMBDA j : CallRest(g, j, <<"Get", f, g.t[i + 1].x, At1(g, i)>>))
    [] K(g, i) = "LeftParenAbutting" ->
         Bind(IF K(g, i + 1) = "RightParen" THEN Ok(<<>>, i + 1)
              ELSE Args(g, i + 1, <<>>),
           LAMBDA r : Need(g, r.i, {"RightParen"}, "Expect ')' after arguments.",
             LAMBDA j : CallRest(g, j, <<"Call", f, r.v, At1(g, i)>>)))
    [] K(g, i) = "LeftBracket" ->
         Bind(Expr(g, i + 1), LAMBDA r :
           Need(g, r.i, {"RightBracket"}, "Expect ']' after index.",
             LAMBDA j : CallRest(g, j, <<"GetIndex", f, r.v, At1(g, i)>>)))
    [] K(g, i) \in JuxtaStart ->
         Bind(Args(g, i, <<>>), LAMBDA r :
           CallRest(g, r.i, <<"Call", f, r.v, At1(g, i)>>))
    [] OTHER -> Ok(f, i)
Args(g, i, acc) ==
  IF Len(acc) >= MaxArgs THEN Here(g, i, "Cannot have more than 255 arguments.")
  ELSE Bind(Expr(g, i), LAMBDA r :
         IF K(g, r.i) = "Comma" THEN Args(g, r.i + 1, Append(acc, r.v))
         ELSE Ok(Append(acc, r.v), r.i))

\* A function from its parameter list on; loc is where it is located.
Function(g, i, loc, type) ==
  Need(g, i, Parens, "Expect '(' after function name.", LAMBDA i1 :
    Bind(IF K(g, i1) = "RightParen" THEN Ok(<<>>, i1) ELSE Params(g, i1, <<>>),
      LAMBDA p : Need(g, p.i, {"RightParen"}, "Expect ')' after parameters.",
        LAMBDA i2 :
          LET op == K(g, i2) IN
          IF op = "LeftBrace" \/ (op = "Terminator" /\ K(g, i2 + 1) = "Indent")
          THEN Bind(IF op = "LeftBrace"
                    THEN Block([g EXCEPT !.loop = FALSE], i2 + 1, "RightBrace", <<>>)
                    ELSE Block([g EXCEPT !.loop = FALSE], i2 + 2, "Outdent", <<>>),
                 LAMBDA b : Ok(<<p.v, b.v, type, loc>>, b.i))
          ELSE IF op = "Terminator" THEN Here(g, i2 + 1, "Expect indent to begin block")
          ELSE Here(g, i2, "Expect '{' or indent before function body."))))
Params(g, i, acc) ==
  Need(g, i, {"Identifier"}, "Expect identifier in function parameters.",
    LAMBDA j :
      IF Len(acc) >= MaxArgs
      THEN Fail(j, ErrAt(g.t[i].l, g.t[i].c, g.t[i].x,
                         "Cannot have more than 255 parameters."))
      ELSE LET ps == Append(acc, <<g.t[i].x, At1(g, i)>>)
           IN  IF K(g, j) = "Comma" THEN Params(g, j + 1, ps) ELSE Ok(ps, j))

\* Map entries.  Entries on separate lines need no comma.
IsKey(g, i) == K(g, i) \in {"Identifier", "String"} /\ Ahead(g, i, 1) = "Colon"
KeyOf(g, i) == IF K(g, i) = "String" THEN g.t[i].v ELSE g.t[i].x
Entries(g, i, acc) ==
  IF ~IsKey(g, i) THEN Ok(acc, i)
  ELSE LET key == KeyOf(g, i) IN
    Bind(Expr(g, i + 2), LAMBDA r :
      IF \E q \in 1..Len(acc) : acc[q][1] = key
      THEN Fail(r.i, ErrAt(g.t[i].l, g.t[i].c, key, "Duplicate key in literal map."))
      ELSE LET es == Append(acc, <<key, r.v>>) IN
        IF \/ K(g, r.i) = "Comma"
           \/ K(g, r.i) = "Terminator" /\ (IsKey(g, r.i + 1) \/ K(g, r.i + 1) = "RightBrace")
        THEN Entries(g, r.i + 1, es)
        ELSE Ok(es, r.i))

Elements(g, i, acc) ==
  Bind(Expr(g, i), LAMBDA r :
    IF K(g, r.i) = "Comma" /\ K(g, r.i + 1) # "RightBracket"
    THEN Elements(g, r.i + 1, Append(acc, r.v))
    ELSE Ok(Append(acc, r.v), Opt(g, r.i, "Comma")))

Primary(g, i) ==
  LET k == K(g, i) IN
  CASE k = "Number" -> Ok(<<"Num", g.t[i].v>>, i + 1)
    [] IsKey(g, i) \/ (k = "This" /\ Ahead(g, i, 1) = "Colon") ->
         Bind(Entries(g, i, <<>>), LAMBDA r : Ok(<<"Map", r.v>>, r.i))
    [] k = "String" -> Ok(<<"Str", g.t[i].v>>, i + 1)
    [] k \in {"Identifier", "This"} -> Ok(<<"Variable", g.t[i].x, At1(g, i)>>, i + 1)
    [] k \in {"True", "False", "Nil"} -> Ok(<<k>>, i + 1)
    [] k \in Parens ->
         Bind(Expr(g, i + 1), LAMBDA r :
           Need(g, r.i, {"RightParen"}, "Missing close parenthesis.",
             LAMBDA j : Ok(<<"Grouping", r.v>>, j)))
    [] k = "LeftBrace" ->
         Bind(Entries(g, i + 1, <<>>), LAMBDA r :
           Need(g, r.i, {"RightBrace"}, "Expect '}' after map entries.",
             LAMBDA j : Ok(<<"Map", r.v>>, j)))
    [] k = "LeftBracket" ->
         Bind(IF K(g, i + 1) = "RightBracket" THEN Ok(<<>>, i + 1)
              ELSE Elements(g, i + 1, <<>>),
           LAMBDA r : Need(g, r.i, {"RightBracket"}, "Expect ']' after array elements.",
             LAMBDA j : Ok(<<"Array", r.v>>, j)))
    [] k = "Fun" ->
         IF K(g, i + 1) = "Identifier"
         THEN Before(g, i + 2, "Expect function in expression context to not have a name.")
         ELSE Bind(Function(g, i + 1, At1(g, i), "Plain"), LAMBDA r :
                Ok(<<"Function">> \o r.v, r.i))
    [] k = "Super" ->
         Need(g, i + 1, {"Dot"}, "Expect '.' after 'super'.", LAMBDA j :
           Need(g, j, {"Identifier"}, "Expect superclass method name.",
             LAMBDA q : Ok(<<"Super", g.t[j].x, At1(g, i)>>, q)))
    [] k = "Eof" -> Before(g, i, "Expect expression.")
    [] OTHER -> Before(g, i + 1, "Expect expression.")

---------------------------------------------------------------------------
(* Statements *)

\* Statements up to the closing token.
Block(g, i, end, acc) ==
  IF K(g, i) = end THEN Ok(acc, i + 1)
  ELSE IF K(g, i) = "Eof"
  THEN Here(g, i, IF end = "Outdent" THEN "Expect outdent after block."
                  ELSE "Expect '}' after block.")
  ELSE Bind(Declaration(g, i), LAMBDA r : Block(g, r.i, end, Append(acc, r.v)))

\* An indented or braced block at i.
Body(g, i, m) ==
  IF K(g, i) = "LeftBrace" THEN
    Bind(Block(g, i + 1, "RightBrace", <<>>), LAMBDA r : Ok(<<"Block", r.v>>, r.i))
  ELSE IF K(g, i) = "Terminator" THEN
    Need(g, i + 1, {"Indent"}, "Expect indent to begin block", LAMBDA j :
      Bind(Block(g, j, "Outdent", <<>>), LAMBDA r : Ok(<<"Block", r.v>>, r.i)))
  ELSE Here(g, i, m)

\* The body of if, else, while, for: a block or a statement on the same line.
SubStatement(g, i, m) ==
  IF K(g, i) \in {"Terminator", "LeftBrace"} THEN Body(g, i, m) ELSE Statement(g, i)
LoopBody(g, i) ==
  SubStatement([g EXCEPT !.loop = TRUE], i, "Expect '{' or indent before loop body.")

Jump(g, i, tag, word) ==
  IF ~g.loop THEN Before(g, i + 1, "Found " \o word \o " statement outside of loop body")
  ELSE Need(g, i + 1, {"Terminator"}, "Expect newline after " \o word \o ".",
         LAMBDA j : Ok(<<tag, At1(g, i)>>, j))

\* After 'var'.  In a for header the declaration ends with a semicolon.
VarDecl(g, i, inFor) ==
  Need(g, i, {"Identifier"}, "Expect variable name.", LAMBDA i1 :
    LET has  == K(g, i1) = "Equal"
        at   == Opt(g, i1 + 1, "Terminator")    \* the value, if any
        bare == has /\ K(g, at) \in {"Indent", "LeftBrace"}
    IN  Bind(IF has THEN Expr(g, at) ELSE Ok(<<"Nil">>, i1), LAMBDA r :
          LET node == <<"Var", g.t[i].x, r.v, At1(g, i)>> IN
          IF inFor
          THEN Need(g, r.i, {"Semicolon"}, "Expect ';' after var declaration.",
                 LAMBDA j : Ok(node, j))
          ELSE IF bare THEN Ok(node, Opt(g, r.i, "Terminator"))
          ELSE Need(g, r.i, {"Terminator"}, "Expect newline after var declaration.",
                 LAMBDA j : Ok(node, j))))

ForInit(g, i) ==
  CASE K(g, i) = "Semicolon" -> Ok(<<>>, i + 1)
    [] K(g, i) = "Var" -> Bind(VarDecl(g, i + 1, TRUE), LAMBDA r : Ok(<<r.v>>, r.i))
    [] OTHER -> Bind(Expr(g, i), LAMBDA r :
         Need(g, r.i, {"Semicolon"}, "Expect ';' after for-loop initializer.",
           LAMBDA j : Ok(<< <<"Expression", r.v>> >>, j)))
For(g, i) ==
  Need(g, i, Parens, "Expect '(' after for.", LAMBDA i1 :
    Bind(ForInit(g, i1), LAMBDA init :
      Bind(IF K(g, init.i) = "Semicolon" THEN Ok(<<"True">>, init.i) ELSE Expr(g, init.i),
        LAMBDA c : Need(g, c.i, {"Semicolon"}, "Expect ';' after for-loop condition.",
          LAMBDA i2 :
            Bind(IF K(g, i2) = "RightParen" THEN Ok(<<>>, i2)
                 ELSE Bind(Expr(g, i2), LAMBDA r : Ok(<<r.v>>, r.i)),
              LAMBDA inc : Need(g, inc.i, {"RightParen"}, "Expect ')' after for-loop increment.",
                LAMBDA i3 : Bind(LoopBody(g, i3), LAMBDA b :
                  LET w == IF inc.v = <<>> THEN <<"While", c.v, b.v>>
                           ELSE <<"WhileInc", c.v, b.v, inc.v[1]>>
                  IN  Ok(IF init.v = <<>> THEN w
                         ELSE <<"Block", <<init.v[1], w>> >>, b.i))))))))

While(g, i) ==
  Need(g, i, Parens, "Expect '(' after while.", LAMBDA i1 :
    Bind(Expr(g, i1), LAMBDA c :
      Need(g, c.i, {"RightParen"}, "Expect ')' after while condition.", LAMBDA i2 :
        Bind(LoopBody(g, i2), LAMBDA b : Ok(<<"While", c.v, b.v>>, b.i)))))

If(g, i) ==
  Need(g, i, Parens, "Expect '(' after if.", LAMBDA i1 :
    Bind(Expr(g, i1), LAMBDA c :
      Need(g, c.i, {"RightParen"}, "Expect ')' after if condition.", LAMBDA i2 :
        Bind(SubStatement(g, i2, "Expect '{' or indent before if body."), LAMBDA t :
          IF K(g, t.i) # "Else" THEN Ok(<<"If", c.v, t.v>>, t.i)
          ELSE Bind(SubStatement(g, t.i + 1, "Expect '{' or indent before else body."),
                 LAMBDA e : Ok(<<"If", c.v, t.v, e.v>>, e.i))))))

ExprStatement(g, i) ==
  Bind(Expr(g, i), LAMBDA r :
    IF g.trail /\ K(g, r.i) = "Eof" THEN Ok(<<"Expression", r.v>>, r.i)
    ELSE Need(g, r.i, {"Terminator"}, "Expect newline after expression.",
           LAMBDA j : Ok(<<"Expression", r.v>>, j)))

Statement(g, i) ==
  LET k == K(g, i) IN
  CASE k = "Break"    -> Jump(g, i, "Break", "break")
    [] k = "Continue" -> Jump(g, i, "Continue", "continue")
    [] k = "For"      -> For(g, i + 1)
    [] k = "If"       -> If(g, i + 1)
    [] k = "While"    -> While(g, i + 1)
    [] k = "LeftBrace" -> Body(g, i, "")
    [] k = "Print"    ->
         Bind(Expr(g, i + 1), LAMBDA r :
           Need(g, r.i, {"Terminator"}, "Expect newline after print value.",
             LAMBDA j : Ok(<<"Print", r.v>>, j)))
    [] k = "Return"   ->
         Bind(IF K(g, i + 1) = "Terminator" THEN Ok(<<"Nil">>, i + 1) ELSE Expr(g, i + 1),
           LAMBDA r : Need(g, r.i, {"Terminator"}, "Expect newline after return expression.",
             LAMBDA j : Ok(<<"Return", r.v, At1(g, i)>>, j)))
    [] OTHER -> ExprStatement(g, i)

\* A function or method from its name on: <<name, params, body, type, loc>>.
Named(g, i, type(_)) ==
  Need(g, i, {"Identifier"}, "Expect identifier after 'fun'.", LAMBDA j :
    Bind(Function(g, j, At1(g, i), type(g.t[i].x)), LAMBDA r :
      Ok(<<g.t[i].x>> \o r.v, r.i)))

MethodType(name) == IF name = "init" THEN "Initializer" ELSE "Method"
Methods(g, i, end, acc) ==
  IF K(g, i) = end THEN Ok(acc, i + 1)
  ELSE IF K(g, i) = "Eof"
  THEN Here(g, i, IF end = "Outdent" THEN "Expect outdent after class method body."
                  ELSE "Expect '}' after class method body.")
  ELSE Bind(IF K(g, i) = "Class" THEN Named(g, i + 1, LAMBDA x : "ClassMethod")
            ELSE Named(g, i, MethodType),
         LAMBDA r : Methods(g, r.i, end, Append(acc, r.v)))

Class(g, i) ==
  Need(g, i, {"Identifier"}, "Expect identifier after 'class'.", LAMBDA i1 :
    Bind(IF K(g, i1) # "Less" THEN Ok(<<>>, i1)
         ELSE Need(g, i1 + 1, {"Identifier"}, "Expect superclass name.",
                LAMBDA j : Ok(<<g.t[i1 + 1].x, At1(g, i1 + 1)>>, j)),
      LAMBDA s :
        LET op == K(g, s.i) IN
        IF op = "Terminator" /\ K(g, s.i + 1) # "Indent"
        THEN Here(g, s.i + 1, "Expect indent to begin block")
        ELSE IF op \notin {"Terminator", "LeftBrace"}
        THEN Here(g, s.i, "Expect '{' or indent after class name.")
        ELSE Bind(IF op = "LeftBrace" THEN Methods(g, s.i + 1, "RightBrace", <<>>)
                  ELSE Methods(g, s.i + 2, "Outdent", <<>>),
               LAMBDA m : Ok(<<"Class", g.t[i].x, s.v, m.v, At1(g, i)>>, m.i))))

Declaration(g, i) ==
  CASE K(g, i) = "Class" -> Class(g, i + 1)
    [] K(g, i) = "Fun" /\ K(g, i + 1) = "Identifier" ->
         Bind(Named(g, i + 1, LAMBDA x : "Plain"), LAMBDA r : Ok(<<"Fun">> \o r.v, r.i))
    [] K(g, i) = "Var" -> VarDecl(g, i + 1, FALSE)
    [] OTHER -> Statement(g, i)

---------------------------------------------------------------------------
(* The whole text: a machine whose steps are top-level statements.  After   *)
(* an error at least one token is skipped, up to and including a keyword    *)
(* that may begin a statement.                                              *)

SyncKinds == {"Class", "Fun", "Var", "For", "If", "While", "Print", "Return"}
RECURSIVE SyncFrom(_, _)
SyncFrom(g, i) ==           \* i: just after a skipped token
  IF K(g, i) = "Eof" \/ (i > 1 /\ K(g, i - 1) \in SyncKinds) THEN i
  ELSE SyncFrom(g, i + 1)
Sync(g, i) == IF K(g, i) = "Eof" THEN i ELSE SyncFrom(g, i + 1)

ParseInit == [i |-> 1, out |-> <<>>, errs |-> <<>>, done |-> FALSE]
ParseStep(g, ps) ==
  IF K(g, ps.i) = "Eof" THEN [ps EXCEPT !.done = TRUE]
  ELSE LET r == Declaration(g, ps.i) IN
       IF r.ok THEN [ps EXCEPT !.i = r.i, !.out = Append(@, r.v)]
       ELSE [ps EXCEPT !.i = Sync(g, r.i), !.errs = @ \o r.e]

Grammar(tokens, trail) == [t |-> tokens, loop |-> FALSE, trail |-> trail]

\* A lone expression is the whole text.
ParseLone(g) ==
  LET r == Bind(Expr(g, 1), LAMBDA q :
             IF K(g, q.i) = "Eof" THEN q ELSE Here(g, q.i, "Expected end of file"))
  IN  [i |-> r.i, out |-> IF r.ok THEN <<r.v>> ELSE <<>>, errs |-> r.e, done |-> TRUE]
=============================================================================
