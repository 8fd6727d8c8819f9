----------------------------- MODULE SymbolsMC -----------------------------
(* Texts typed character by character: joining the two assets with a dash     *)
(* gives the symbol back, and the base never has a dash.                      *)
EXTENDS Symbols
CONSTANTS CHARS, LEN
VARIABLES s, ss
Init == s = <<>> /\ ss = <<>>
Type == Len(s) < LEN /\ \E c \in CHARS : s' = Append(s, c) /\ ss' = ss
Enter == IsSymbol(s) /\ Len(ss) < 2 /\ ss' = Append(ss, s) /\ s' = <<>>
Next == Type \/ Enter
Spec == Init /\ [][Next]_<<s, ss>>
Rejoined == IsSymbol(s) => Base(s) \o <<DASH>> \o Quote(s) = s
BasePlain == IsSymbol(s) => ~IsSymbol(Base(s))
Stable == [][(IsSymbol(s) /\ IsSymbol(s') /\ Len(s') > Len(s)) => Base(s') = Base(s)]_<<s, ss>>
InOrder == /\ Len(AllAssets(ss)) = 2 * Len(ss)
           /\ \A i \in DOMAIN ss : AllAssets(ss)[2 * i - 1] = Base(ss[i]) /\ AllAssets(ss)[2 * i] = Quote(ss[i])
=============================================================================
