------------------------------- MODULE MCFile -------------------------------
(* Cases read from the file IOEnv.CASES (a JSON array). *)
EXTENDS Lawful
FileCases == LET a == JsonDeserialize(IOEnv.CASES) IN {a[i] : i \in 1..Len(a)}
IsFine == IOEnv.FINE = "1"
LawsUpTo == atoi(IOEnv.LAWS)
=============================================================================
