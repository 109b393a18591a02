------------------------------- MODULE LibId -------------------------------
(***************************************************************************)
(* Library identifiers: how their spelling splits into nickname, entry     *)
(* name, unit and style number, how they are joined again, and what        *)
(* renames, part edits and saves do to a symbol and its units.             *)
(* An identifier is a sequence of characters.  A part is a sequence of     *)
(* characters, or NoPart.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Chars, MaxLen,      \* for the enumeration of spellings
          Ids, Nicks, Entries, \* for the histories
          MaxHist,
          Seeds, MaxLevel      \* for the random walks
VARIABLES cls, id, parts, units, hist, mZ
vars == <<cls, id, parts, units, hist>>

NoPart == <<"-none-">>
IsDig(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* a number as it is written: no leading zeros
IsNumber(s) == s # <<>> /\ (\A i \in 1..Len(s) : IsDig(s[i])) /\ (Len(s) = 1 \/ s[1] # "0")
Colons(s) == {i \in 2..(Len(s) - 1) : s[i] = ":"}
\* "<entry>_<unit>_<style>"
Tails(s) == {i \in 2..Len(s) : /\ s[i] = "_"
                               /\ \E j \in (i + 1)..Len(s) : /\ s[j] = "_"
                                                             /\ IsNumber(SubSeq(s, i + 1, j - 1))
                                                             /\ IsNumber(SubSeq(s, j + 1, Len(s)))}
Parts(n, e, u, st) == [nick |-> n, entry |-> e, unit |-> u, style |-> st]
Split(c, s) ==
  IF Colons(s) # {} THEN LET i == Min(Colons(s)) IN Parts(SubSeq(s, 1, i - 1), SubSeq(s, i + 1, Len(s)), NoPart, NoPart)
  ELSE IF c = "Symbol" /\ Tails(s) # {} THEN
    LET i == Min(Tails(s))
        j == CHOOSE j \in (i + 1)..Len(s) : s[j] = "_" /\ IsNumber(SubSeq(s, i + 1, j - 1)) /\ IsNumber(SubSeq(s, j + 1, Len(s)))
    IN Parts(NoPart, SubSeq(s, 1, i - 1), SubSeq(s, i + 1, j - 1), SubSeq(s, j + 1, Len(s)))
  ELSE Parts(NoPart, s, NoPart, NoPart)
\* nickname and unit numbers exclude each other; the nickname wins
Join(p) == IF p.nick \notin {NoPart, <<>>} THEN p.nick \o <<":">> \o p.entry
           ELSE IF p.unit # NoPart /\ p.style # NoPart THEN p.entry \o <<"_">> \o p.unit \o <<"_">> \o p.style
           ELSE p.entry
\* what the units of a symbol are called after it
FamilyName(p) == IF p.unit # NoPart /\ p.style # NoPart THEN p.entry \o <<"_">> \o p.unit \o <<"_">> \o p.style ELSE p.entry

-----------------------------------------------------------------------------
(* all spellings *)
Init == /\ cls \in {"Symbol", "SchematicSymbol", "Footprint"}
        /\ id = <<>> /\ parts = Split(cls, <<>>) /\ units = <<>> /\ hist = <<>>
Grow == /\ Len(id) < MaxLen
        /\ \E c \in Chars : id' = Append(id, c)
        /\ parts' = Split(cls, id')
        /\ UNCHANGED <<cls, units, hist>>
Spec == Init /\ mZ = 0 /\ [][Grow /\ UNCHANGED mZ]_<<vars, mZ>>

-----------------------------------------------------------------------------
(* histories *)
U(n) == <<ToString(n)>>
StartUnits == << Parts(NoPart, <<"R">>, U(0), U(1)), Parts(NoPart, <<"R">>, U(1), U(1)), Parts(NoPart, <<"R">>, <<"1", "2">>, U(0)) >>
InitH == /\ cls \in {"Symbol", "SchematicSymbol", "Footprint"}
         /\ id = <<"R">> /\ parts = Split(cls, id)
         /\ units = IF cls = "Symbol" THEN StartUnits ELSE <<>>
         /\ hist = <<>>
Do(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg])
Rename(us, p) == [i \in 1..Len(us) |-> [us[i] EXCEPT !.entry = FamilyName(p)]]
SetId(s) == /\ parts' = Split(cls, s) /\ units' = Rename(units, parts')
            /\ Do("id", s)
SetNick(n) == /\ parts' = [parts EXCEPT !.nick = n] /\ units' = units
              /\ Do("nick", n)
SetEntry(e) == /\ parts' = [parts EXCEPT !.entry = e] /\ units' = units
               /\ Do("entry", e)
SetUnit(u, s) == /\ cls = "Symbol"
                 /\ parts' = [parts EXCEPT !.unit = u, !.style = s] /\ units' = units
                 /\ Do("unit", <<u, s>>)
SetUnitNo(u) == /\ cls = "Symbol" /\ parts' = [parts EXCEPT !.unit = u] /\ units' = units
                /\ Do("unitno", u)
SetStyleNo(u) == /\ cls = "Symbol" /\ parts' = [parts EXCEPT !.style = u] /\ units' = units
                 /\ Do("styleno", u)
AddUnit(u, s) == /\ cls = "Symbol" /\ Len(units) < 4
                 /\ units' = Append(units, Split("Symbol", FamilyName(parts) \o <<"_">> \o u \o <<"_">> \o s)) /\ parts' = parts
                 /\ Do("add", <<u, s>>)
DropUnit == /\ units # <<>> /\ units' = Tail(units) /\ parts' = parts
            /\ Do("drop", <<>>)
\* renaming one unit, not its parent
UnitId(s) == /\ units # <<>> /\ units' = [units EXCEPT ![1] = Split("Symbol", s)] /\ parts' = parts
             /\ Do("unitid", s)
SaveLoad == /\ parts' = Split(cls, Join(parts))
            /\ units' = [i \in 1..Len(units) |-> Split("Symbol", Join(units[i]))]
            /\ Do("save", <<>>)
NextH == /\ Len(hist) < MaxHist
         /\ cls' = cls
         /\ \/ \E s \in Ids : SetId(s)
            \/ \E n \in Nicks : SetNick(n)
            \/ \E e \in Entries : SetEntry(e)
            \/ SetUnit(U(2), U(0)) \/ SetUnit(NoPart, NoPart)
            \/ SetUnitNo(U(0)) \/ SetStyleNo(U(3))
            \/ AddUnit(U(3), U(1))
            \/ DropUnit
            \/ UnitId(<<"X", "_", "7", "_", "2">>)
            \/ SaveLoad
         /\ id' = Join(parts')
SpecH == InitH /\ mZ = 0 /\ [][NextH /\ UNCHANGED mZ]_<<vars, mZ>>

(* long histories: pseudo-random walks, one per seed, each starting over now and then *)
Mix(a, b) == ((a % 46337) * 40692 + b * 7919 + (a \div 46337) + 12345) % 2147483399
Classes == <<"Symbol", "SchematicSymbol", "Footprint", "Symbol">>
Nth(S, n) == LET q == SetToSeq(S) IN q[(n % Len(q)) + 1]
Numbers == <<U(0), U(1), U(2), <<"1", "0">>, <<"1", "7">>, NoPart>>
Num(n) == Numbers[(n % 5) + 1]
NumOrNot(n) == Numbers[(n % 6) + 1]
Restart(q) == /\ cls' = Classes[(Mix(q, 1) % 4) + 1] /\ parts' = Split(cls', Nth(Ids, Mix(q, 2)))
              /\ id' = Join(parts')
              /\ units' = IF cls' = "Symbol" /\ Mix(q, 3) % 2 = 0
                         THEN [i \in 1..3 |-> [StartUnits[i] EXCEPT !.entry = FamilyName(parts')]] ELSE <<>>
              /\ hist' = <<[op |-> "start", arg |-> <<Join(parts'), ToString(Len(units'))>>]>>
Act(q) ==
  LET c == Mix(q, 1) % (IF cls = "Symbol" THEN 13 ELSE 7) a == Mix(q, 2) b == Mix(q, 3) IN
  CASE c \in {0, 1, 2} -> SetId(Nth(Ids, a))
    [] c = 3 -> SetNick(Nth(Nicks, a))
    [] c \in {4, 5} -> SetEntry(Nth(Entries, a))
    [] c = 6 -> SaveLoad
    [] c = 7 -> SetUnit(Num(a), Num(b))
    [] c = 8 -> SetUnitNo(NumOrNot(a))
    [] c = 9 -> SetStyleNo(NumOrNot(a))
    [] c = 10 -> IF Len(units) < 4 THEN AddUnit(Num(a), Num(b)) ELSE DropUnit
    [] c = 11 -> IF units # <<>> THEN DropUnit ELSE AddUnit(Num(a), Num(b))
    [] c = 12 -> IF units # <<>> THEN UnitId(Nth(Ids, a)) ELSE AddUnit(Num(b), Num(a))
InitW == /\ \E i \in Seeds : mZ = Mix(i, 5)
         /\ cls = "Symbol" /\ id = <<"R">> /\ parts = Split(cls, id) /\ units = <<>>
         /\ hist = <<[op |-> "start", arg |-> <<id, "0">>]>>
NextW == /\ TLCGet("level") < MaxLevel
         /\ mZ' = Mix(mZ, 11)
         /\ IF Len(hist) > MaxHist THEN Restart(mZ') ELSE Act(mZ') /\ cls' = cls /\ id' = Join(parts')
SpecW == InitW /\ [][NextW]_<<vars, mZ>>

-----------------------------------------------------------------------------
\* an assigned identifier is returned unchanged
Verbatim == Join(Split(cls, id)) = id
\* parts read from a spelling have no inner structure left
Exact == LET p == Split(cls, id) IN
         /\ (p.nick # NoPart => p.nick # <<>> /\ p.entry # <<>> /\ p.unit = NoPart)
         /\ (p.unit # NoPart => IsNumber(p.unit) /\ IsNumber(p.style) /\ p.nick = NoPart /\ p.entry # <<>>)
         /\ (cls # "Symbol" => p.unit = NoPart)
\* after a rename all units carry the new name, and splitting it gives it back
Family == (cls = "Symbol" /\ hist # <<>> /\ hist[Len(hist)].op = "id") =>
            \A i \in 1..Len(units) : units[i].entry = FamilyName(parts)
\* saving and loading keeps every identifier
SaveKeeps == Join(Split(cls, Join(parts))) = Join(parts)
             /\ \A i \in 1..Len(units) : Join(Split("Symbol", Join(units[i]))) = Join(units[i])

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Out(x) == Cat(x)
OutP(p) == [id |-> Cat(Join(p)), nick |-> Out(p.nick), entry |-> Out(p.entry), unit |-> Out(p.unit), style |-> Out(p.style)]
OutH == [i \in 1..Len(hist) |-> [op |-> hist[i].op, arg |->
            IF hist[i].op = "start" THEN <<Cat(hist[i].arg[1]), hist[i].arg[2]>>
            ELSE IF hist[i].op \in {"unit", "add"} THEN <<Out(hist[i].arg[1]), Out(hist[i].arg[2])>> ELSE <<Out(hist[i].arg)>>]]
Export == PrintT(ToJson([cls |-> cls, parts |-> OutP(parts), hist |-> OutH,
                         units |-> [i \in 1..Len(units) |-> OutP(units[i])]]))
=============================================================================
