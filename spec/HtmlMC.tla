------------------------------ MODULE HtmlMC ------------------------------
(* The parser function itself, over every document up to a length.           *)
EXTENDS HtmlOps
CONSTANTS Pieces, MaxLen
VARIABLE doc
Tok(p) == CASE p = "script" -> <<LT>> \o ScriptName
            [] p = "/script" -> <<LT, SL>> \o ScriptName
            [] p = "lt" -> <<LT>> [] p = "gt" -> <<GT>> [] p = "sl" -> <<SL>>
            [] p = "eq" -> <<EQ>> [] p = "bang" -> <<BANG>> [] p = "qm" -> <<QM>>
            [] p = "dash" -> <<DASH>> [] p = "dq" -> <<DQ>> [] p = "sq" -> <<SQ>>
            [] p = "sp" -> <<32>> [] p = "a" -> <<97>> [] p = "cmt" -> <<LT, BANG, DASH, DASH>>
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Tok(Head(ps)) \o Flat(Tail(ps))
HInit == doc = <<>>
HNext == Len(doc) < MaxLen /\ \E p \in Pieces : doc' = Append(doc, p)
HSpec == HInit /\ [][HNext]_doc
AlwaysLossless == Lossless(Flat(doc))
AlwaysPlain == PlainText(Flat(doc))
=============================================================================
