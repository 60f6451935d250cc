------------------------------- MODULE Chars -------------------------------
(* The alphabet of the language: classes of grapheme clusters, punctuation  *)
(* and keywords.  Clusters outside ASCII are classified by clusters.json    *)
(* (letter / digit-like / other), a table of representatives of the Unicode *)
(* classes that the language distinguishes.                                 *)
EXTENDS Integers, Sequences, Json, TLC, IOUtils

SpecDir == IF "SPECDIR" \in DOMAIN IOEnv THEN IOEnv.SPECDIR ELSE "."
Uni   == JsonDeserialize(SpecDir \o "/clusters.json")
CR    == Uni.cr
CRLF  == Uni.crlf
LineEnds == {"\n", CRLF}

Digits == {"0","1","2","3","4","5","6","7","8","9"}
AsciiLetters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
  "p","q","r","s","t","u","v","w","x","y","z","A","B","C","D","E","F","G","H",
  "I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
Letters   == AsciiLetters \cup {Uni.letters[i] : i \in 1..Len(Uni.letters)}
WordChars == Letters \cup Digits \cup {Uni.digits[i] : i \in 1..Len(Uni.digits)}
IsDigit(c)    == c \in Digits
IsLetter(c)   == c \in Letters
IsWordChar(c) == c \in WordChars

Puncts == {"(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "*",
           "!", "=", "<", ">", "/"}
MayTakeEqual == {"!", "=", "<", ">"}
Punct1 == ("(" :> "LeftParen") @@ (")" :> "RightParen") @@ ("{" :> "LeftBrace")
  @@ ("}" :> "RightBrace") @@ ("[" :> "LeftBracket") @@ ("]" :> "RightBracket")
  @@ (":" :> "Colon") @@ ("," :> "Comma") @@ ("." :> "Dot") @@ ("-" :> "Minus")
  @@ ("+" :> "Plus") @@ (";" :> "Semicolon") @@ ("*" :> "Star") @@ ("!" :> "Bang")
  @@ ("=" :> "Equal") @@ ("<" :> "Less") @@ (">" :> "Greater") @@ ("/" :> "Slash")
Punct2 == ("!" :> "BangEqual") @@ ("=" :> "EqualEqual") @@ ("<" :> "LessEqual")
  @@ (">" :> "GreaterEqual")
\* Punctuation after which a line is continued (<= and >= included).
Continuing == {"(", "{", "[", ":", ",", ".", "-", "+", "*", "<", ">", "/"}

Keywords == [ and |-> "And", break |-> "Break", class |-> "Class",
  continue |-> "Continue", else |-> "Else", false |-> "False", for |-> "For",
  fun |-> "Fun", if |-> "If", nil |-> "Nil", or |-> "Or", print |-> "Print",
  return |-> "Return", super |-> "Super", this |-> "This", true |-> "True",
  var |-> "Var", while |-> "While" ]
=============================================================================
