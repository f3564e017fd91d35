------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* The lex and parse commands and the shell with --lex: a run reads its    *)
(* argument and exports what scanner or parser find, one token per step.   *)
(* The source is made of up to MaxLen chunks.  Every finished run is       *)
(* printed with the lines it has to write and its status.                  *)
(***************************************************************************)
EXTENDS LexExplore
CONSTANTS Commands, \* a subset of {"lex", "parse", "shell"}
          Arguments \* how the argument is given

\* the ways to call a command: all but "file" fail
A_Arguments == {"file", "none", "two", "missing", "directory", "unreadable", "empty-name", "below-file"}

VARIABLES cmd,    \* the command
          arg,    \* its argument
          pc,     \* "typing" the source, "reading" it, "exporting" it or "done"
          i,      \* tokens exported so far
          out,    \* what is written: the tokens, or the tree as a whole
          status  \* "" while running
xvars == <<src, s, n, cmd, arg, pc, i, out, status>>

Toks == Finish(s).toks
Lexical == Finish(s).errs
Illegal == \E k \in 1..Len(Toks) : Toks[k].k = "ILLEGAL"

XInit == /\ Init
         /\ cmd \in Commands /\ arg \in (IF cmd = "shell" THEN {"file"} ELSE Arguments)
         /\ pc = "typing" /\ i = 0 /\ out = <<>> /\ status = ""

Type == /\ pc = "typing" /\ arg = "file" /\ Next
        /\ cmd = "shell" => src'[Len(src')] \notin {"NL", "CR"} \* the shell reads a line
        /\ UNCHANGED <<cmd, arg, pc, i, out, status>>
Run  == /\ pc = "typing" /\ pc' = "reading"
        /\ UNCHANGED <<src, s, n, cmd, arg, i, out, status>>
Read == /\ pc = "reading"
        /\ IF arg = "file" THEN pc' = "exporting" /\ UNCHANGED status
           ELSE pc' = "done" /\ status' = "fails"
        /\ UNCHANGED <<src, s, n, cmd, arg, i, out>>
\* one token, the end of the input as well
Token1 == /\ pc = "exporting" /\ cmd \in {"lex", "shell"} /\ i < Len(Toks)
          /\ i' = i + 1 /\ out' = Append(out, Toks[i + 1])
          /\ UNCHANGED <<src, s, n, cmd, arg, pc, status>>
TokensDone == /\ pc = "exporting" /\ cmd \in {"lex", "shell"} /\ i = Len(Toks)
              /\ pc' = "done"
              /\ status' = IF cmd = "lex" /\ Illegal THEN "fails" ELSE "succeeds"
              /\ UNCHANGED <<src, s, n, cmd, arg, i, out>>
Tree == /\ pc = "exporting" /\ cmd = "parse"
        /\ pc' = "done" /\ out' = <<"tree">> /\ status' = "succeeds"
        /\ UNCHANGED <<src, s, n, cmd, arg, i>>
XNext == Type \/ Run \/ Read \/ Token1 \/ TokensDone \/ Tree
XSpec == XInit /\ [][XNext]_xvars

-----------------------------------------------------------------------------
\* nothing is exported of what cannot be read, and the failure shows
Inv_Unread == (pc = "done" /\ arg # "file") => out = <<>> /\ status = "fails"
\* the tokens are those of the source, in order, up to the end of the input, each once
Inv_Tokens == cmd # "parse" /\ arg = "file" =>
                 /\ out = SubSeq(Toks, 1, Len(out))
                 /\ pc = "done" => out = Toks /\ out[Len(out)].k = "EOF"
\* lex fails exactly for illegal tokens
Inv_Status == (pc = "done" /\ cmd = "lex" /\ arg = "file") => (status = "fails" <=> \E k \in 1..Len(out) : out[k].k = "ILLEGAL")
Inv_Lines == pc = "done" /\ cmd = "lex" => \A k \in 1..Len(out) - 1 : out[k].o < out[k + 1].o \/ out[k + 1].k = "EOF"

XCase == [cmd |-> cmd, arg |-> arg, src |-> src, status |-> status,
          toks |-> IF cmd = "parse" THEN <<>>
                  ELSE [k \in 1..Len(out) |-> <<out[k].k, out[k].o, out[k].l, out[k].c, out[k].e>>]]
XEmitted == pc = "done" => PrintT("CASE " \o ToJson(XCase))
=============================================================================
