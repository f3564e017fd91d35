------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded scans.  A record is a source, the tokens   *)
(* the implementation returned for it (up to the first end of input), the  *)
(* number of lexical errors, whether the end of input was reached in time  *)
(* and repeated (more) and whether the texts were the source's (text).     *)
(* Each record is a behaviour: the scanner of CddlLex reads its characters,*)
(* and whenever it completes a token the next recorded token must be it.   *)
(* A record that is no behaviour is printed as REJECT <property> <record>. *)
(***************************************************************************)
EXTENDS CddlLex, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,     \* the record
          p,     \* characters read
          k,     \* recorded tokens matched
          s,     \* the scanner, without the tokens already matched
          ok
vars == <<i, p, k, s, ok>>

Rec == Trace[i]
Reject(prop, why) == PrintT("REJECT " \o prop \o " " \o ToString(i) \o " " \o why)

\* the tokens completed by the last step are the next recorded ones
Matches(toks) ==
    /\ k + Len(toks) <= Len(Rec.toks)
    /\ \A j \in 1..Len(toks) :
         LET r == Rec.toks[k + j] IN
         r[1] = toks[j].k /\ r[2] = toks[j].o /\ (r[1] = "EOF" \/ r[5] = toks[j].e)
\* lines and columns of tokens that are the recorded ones
Placed(toks) ==
    \A j \in 1..Len(toks) :
       k + j <= Len(Rec.toks) =>
         LET r == Rec.toks[k + j] IN r[2] = toks[j].o => r[3] = toks[j].l /\ r[4] = toks[j].c

Accept(s1) ==
    LET m == Matches(s1.toks)  q == Placed(s1.toks) IN
    /\ (~ m => Reject("C03", "token " \o ToString(k + 1)))
    /\ (~ q => Reject("C02", "position of token " \o ToString(k + 1)))
    /\ ok' = (m /\ q)
    /\ k' = k + Len(s1.toks)
    /\ s' = [s1 EXCEPT !.toks = <<>>]

Init == /\ i \in 1..Len(Trace)
        /\ p = 0 /\ k = 0 /\ s = LexInit
        /\ ok = TRUE
        /\ (~ Rec.more => Reject("C01", "end of input"))
        /\ (~ Rec.text => Reject("C02", "tiling or text"))

ReadChar == /\ ok /\ p < Len(Rec.src)
            /\ p' = p + 1 /\ i' = i
            /\ Accept(Step(s, Rec.src[p + 1]))
EndOfInput == /\ ok /\ p = Len(Rec.src)
              /\ p' = p + 1 /\ i' = i
              /\ Accept(Finish(s))
Complete == /\ ok /\ p = Len(Rec.src) + 1
            /\ p' = p + 1
            /\ (k # Len(Rec.toks) => Reject("C03", "extra tokens"))
            /\ (Len(s.errs) # Rec.errs => Reject("C03", "lexical errors"))
            /\ (k = Len(Rec.toks) /\ Len(s.errs) = Rec.errs => PrintT("ACCEPT " \o ToString(i)))
            /\ UNCHANGED <<i, k, s, ok>>

Next == ReadChar \/ EndOfInput \/ Complete
Spec == Init /\ [][Next]_vars
=============================================================================
