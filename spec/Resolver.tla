------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* Name resolution of jtran/whitespace.                                    *)
(*                                                                         *)
(* A tree (module Parser) is first read as the sequence of its scoping     *)
(* operations, in source order, each a record [o, x, l, c, a]:             *)
(*   begin / end        a scope opens / closes                             *)
(*   fun(a) / funEnd    a function body of type a opens / closes           *)
(*   class(a) / classEnd  a class (a: "sub" or "base") opens / closes      *)
(*   declare x, define x  var x: before / after its initializer            *)
(*   name x             x is declared and defined at once (fun, class,     *)
(*                      parameter, this, super)                            *)
(*   use x, set x, super  a read, an assignment, a use of super            *)
(*   return(a)          a: "nil" or "value"                                *)
(*   inherit x          class x < x                                        *)
(*   stop               the end of a top-level statement                   *)
(* The resolver is a machine over these operations, one step each.         *)
(***************************************************************************)
EXTENDS Parser

MaxSlots == 255

Op(o, x, loc, a) == [o |-> o, x |-> x, l |-> loc[1], c |-> loc[2], a |-> a]
Mark(o)  == << [o |-> o, x |-> "", l |-> 0, c |-> 0, a |-> ""] >>
MarkA(o, a) == << [o |-> o, x |-> "", l |-> 0, c |-> 0, a |-> a] >>

RECURSIVE ExprOps(_), StmtOps(_), ListOps(_), BodyOps(_)
ListOps(es) == FoldLeft(LAMBDA acc, e : acc \o ExprOps(e), <<>>, es)
BodyOps(ss) == FoldLeft(LAMBDA acc, s : acc \o StmtOps(s), <<>>, ss)
FunOps(params, body, type) ==
  MarkA("fun", type) \o Mark("begin")
  \o [i \in 1..Len(params) |-> Op("name", params[i][1], params[i][2], "")]
  \o BodyOps(body) \o Mark("end") \o Mark("funEnd")

ExprOps(e) ==
  LET t == e[1] IN
  CASE t \in {"Num", "Str", "True", "False", "Nil"} -> <<>>
    [] t = "Variable" -> <<Op("use", e[2], e[3], "")>>
    [] t = "Assign"   -> ExprOps(e[3]) \o <<Op("set", e[2], e[4], "")>>
    [] t = "Super"    -> <<Op("super", "super", e[3], "")>>
    [] t \in {"Binary", "Logical"} -> ExprOps(e[2]) \o ExprOps(e[4])
    [] t = "Unary"    -> ExprOps(e[3])
    [] t \in {"Get", "Grouping"} -> ExprOps(e[2])
    [] t = "GetIndex" -> ExprOps(e[2]) \o ExprOps(e[3])
    [] t = "Set"      -> ExprOps(e[2]) \o ExprOps(e[4])
    [] t = "SetIndex" -> ExprOps(e[2]) \o ExprOps(e[3]) \o ExprOps(e[4])
    [] t = "Call"     -> ExprOps(e[2]) \o ListOps(e[3])
    [] t = "Array"    -> ListOps(e[2])
    [] t = "Map"      -> ListOps([i \in 1..Len(e[2]) |-> e[2][i][2]])
    [] t = "Function" -> FunOps(e[2], e[3], "Plain")

ClassOps(s) ==
  LET sup == s[3] IN
  MarkA("class", IF sup = <<>> THEN "base" ELSE "sub")
  \o <<Op("name", s[2], s[5], "")>>
  \o (IF sup = <<>> THEN <<>>
      ELSE (IF sup[1] = s[2] THEN <<Op("inherit", sup[1], sup[2], "")>>
            ELSE <<Op("use", sup[1], sup[2], "")>>)
           \o Mark("begin") \o <<Op("name", "super", s[5], "")>>)
  \o Mark("begin") \o <<Op("name", "this", s[5], "")>>
  \o FoldLeft(LAMBDA acc, m : acc \o FunOps(m[2], m[3],
                IF m[4] = "Initializer" THEN m[4] ELSE "Method"), <<>>, s[4])
  \o Mark("end") \o (IF sup = <<>> THEN <<>> ELSE Mark("end"))
  \o Mark("classEnd")

StmtOps(s) ==
  LET t == s[1] IN
  CASE t = "Block"   -> Mark("begin") \o BodyOps(s[2]) \o Mark("end")
    [] t \in {"Break", "Continue"} -> <<>>
    [] t \in {"Expression", "Print"} -> ExprOps(s[2])
    [] t = "Return"  -> <<Op("return", "return", s[3],
                             IF s[2] = <<"Nil">> THEN "nil" ELSE "value")>>
                        \o ExprOps(s[2])
    [] t = "Var"     -> <<Op("declare", s[2], s[4], "")>> \o ExprOps(s[3])
                        \o <<Op("define", s[2], s[4], "")>>
    [] t = "If"      -> ExprOps(s[2]) \o StmtOps(s[3])
                        \o (IF Len(s) = 4 THEN StmtOps(s[4]) ELSE <<>>)
    [] t = "While"   -> ExprOps(s[2]) \o StmtOps(s[3])
    [] t = "WhileInc" -> ExprOps(s[2]) \o StmtOps(s[3]) \o ExprOps(s[4])
    [] t = "Fun"     -> <<Op("name", s[2], s[6], "")>> \o FunOps(s[3], s[4], "Plain")
    [] t = "Class"   -> ClassOps(s)

ProgramOps(ss) == FoldLeft(LAMBDA acc, s : acc \o StmtOps(s) \o Mark("stop"), <<>>, ss)

---------------------------------------------------------------------------
(* State of the machine:                                                    *)
(*   sc    open scopes, outermost first; a scope is the sequence of its     *)
(*         names [x, d] in slot order, d one of "und" (a global that was    *)
(*         only used), "dcl" (in its initializer), "def"                    *)
(*   fn, cl  open functions and classes (their types)                       *)
(*   out   bindings <<kind, name, line, col, distance, slot>>               *)
(*   errs  causes;  skip  the current top-level statement is rejected       *)

ResInit(globals) ==
  [sc |-> <<globals>>, fn |-> <<>>, cl |-> <<>>, out |-> <<>>, errs |-> <<>>,
   skip |-> FALSE]

Names(scope) == {scope[i].x : i \in 1..Len(scope)}
Index(scope, x) == CHOOSE i \in 1..Len(scope) : scope[i].x = x
Holds(scope, x) == \E i \in 1..Len(scope) : scope[i].x = x
Depth(rs) == Len(rs.sc)
Top(rs)   == rs.sc[Len(rs.sc)]
SetTop(rs, scope) == [rs EXCEPT !.sc[Len(rs.sc)] = scope]
Globally(rs) == Depth(rs) = 1

Reject(rs, op, text, m) ==
  [rs EXCEPT !.errs = Append(@, ErrAt(op.l, op.c, text, m)), !.skip = TRUE]
Bound(rs, kind, op, dist, slot) ==
  [rs EXCEPT !.out = Append(@, <<kind, op.x, op.l, op.c, dist, slot>>)]

TooMany(rs, op)  == Reject(rs, op, op.x, "Too many local variables in function.")
Again(rs, op)    == Reject(rs, op, op.x,
                      "Variable with this name already declared in this scope.")

\* Give x the state d in the innermost scope, adding it if it is new.
Enter(rs, x, d) ==
  LET s == Top(rs) IN
  IF Holds(s, x) THEN SetTop(rs, [s EXCEPT ![Index(s, x)].d = d])
  ELSE SetTop(rs, Append(s, [x |-> x, d |-> d]))

Declare(rs, op) ==
  LET s == Top(rs) IN
  IF ~Holds(s, op.x)
  THEN IF Len(s) >= MaxSlots THEN TooMany(rs, op)
       ELSE Bound(Enter(rs, op.x, "dcl"), "var", op, 0, Len(s))
  ELSE LET i == Index(s, op.x) IN
       IF s[i].d = "und" THEN Bound(Enter(rs, op.x, "dcl"), "var", op, 0, i - 1)
       ELSE IF Globally(rs) THEN Bound(rs, "var", op, 0, i - 1)
       ELSE Again(rs, op)
Define(rs, op) == Enter(rs, op.x, "def")
Name(rs, op) ==
  LET s == Top(rs) IN
  IF ~Holds(s, op.x)
  THEN IF Len(s) >= MaxSlots THEN TooMany(rs, op) ELSE Enter(rs, op.x, "def")
  ELSE IF Globally(rs) THEN Enter(rs, op.x, "def") ELSE Again(rs, op)

\* The innermost scope that holds x; otherwise the global of that name.
Refer(rs, op) ==
  LET in == {j \in 1..Depth(rs) : Holds(rs.sc[j], op.x)} IN
  IF in # {}
  THEN LET j == CHOOSE j \in in : \A q \in in : q <= j
       IN  Bound(rs, op.o, op, Depth(rs) - j, Index(rs.sc[j], op.x) - 1)
  ELSE IF Len(rs.sc[1]) >= MaxSlots THEN TooMany(rs, op)
  ELSE Bound([rs EXCEPT !.sc[1] = Append(@, [x |-> op.x, d |-> "und"])],
             op.o, op, Depth(rs) - 1, Len(rs.sc[1]))

Use(rs, op) ==
  LET s == Top(rs) IN
  IF op.x = "this" /\ rs.cl = <<>>
  THEN Reject(rs, op, "this", "Cannot use 'this' outside of a class.")
  ELSE IF Holds(s, op.x) /\ s[Index(s, op.x)].d = "dcl"
  THEN Reject(rs, op, op.x, "Cannot read local variable in its own initializer.")
  ELSE Refer(rs, op)

Super(rs, op) ==
  IF rs.cl = <<>> THEN Reject(rs, op, "super", "Cannot use 'super' outside of a class.")
  ELSE IF Last(rs.cl) # "sub"
  THEN Reject(rs, op, "super", "Cannot use 'super' in a class with no superclass.")
  ELSE Refer(rs, op)

Return(rs, op) ==
  IF rs.fn = <<>> THEN Reject(rs, op, "return", "Cannot return from top-level code.")
  ELSE IF Last(rs.fn) = "Initializer" /\ op.a = "value"
  THEN Reject(rs, op, "return", "Cannot return a value from an initializer.")
  ELSE rs

\* The end of a top-level statement: back to the global scope.  A global
\* whose initializer was rejected counts as defined.
Stop(rs) ==
  IF ~rs.skip THEN rs
  ELSE [rs EXCEPT !.skip = FALSE, !.fn = <<>>, !.cl = <<>>,
          !.sc = << [i \in 1..Len(@[1]) |->
                      IF @[1][i].d = "dcl" THEN [@[1][i] EXCEPT !.d = "def"]
                      ELSE @[1][i]] >>]

ResStep(rs, op) ==
  IF op.o = "stop" THEN Stop(rs)
  ELSE IF rs.skip THEN rs
  ELSE CASE op.o = "begin"    -> [rs EXCEPT !.sc = Append(@, <<>>)]
         [] op.o = "end"      -> [rs EXCEPT !.sc = Front(@)]
         [] op.o = "fun"      -> [rs EXCEPT !.fn = Append(@, op.a)]
         [] op.o = "funEnd"   -> [rs EXCEPT !.fn = Front(@)]
         [] op.o = "class"    -> [rs EXCEPT !.cl = Append(@, op.a)]
         [] op.o = "classEnd" -> [rs EXCEPT !.cl = Front(@)]
         [] op.o = "declare"  -> Declare(rs, op)
         [] op.o = "define"   -> Define(rs, op)
         [] op.o = "name"     -> Name(rs, op)
         [] op.o \in {"use"}  -> Use(rs, op)
         [] op.o = "set"      -> Refer(rs, op)
         [] op.o = "super"    -> Super(rs, op)
         [] op.o = "return"   -> Return(rs, op)
         [] op.o = "inherit"  -> Reject(rs, op, op.x, "A class cannot inherit from itself.")

ResolveAll(ops, globals) == FoldLeft(ResStep, ResInit(globals), ops)
=============================================================================
