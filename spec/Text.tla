-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text and byte-string utilities.  A byte string is a sequence over       *)
(* 0..255; a text is a sequence of Unicode code points.  TLA+ strings are  *)
(* used only for names (attribute names, definition keys, exception names).*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Bitwise

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
          CHOOSE i \in 32..126 : SubSeq(Ascii, i - 31, i - 31) = c]
Chr == [i \in 32..126 |-> SubSeq(Ascii, i - 31, i - 31)]

\* TLA+ string -> text, text -> TLA+ string (other characters become {n})
T(s)   == TLCEval([i \in 1..Len(s) |-> Ord[SubSeq(s, i, i)]])
ChrS(c) == IF c \in 32..126 THEN Chr[c] ELSE "{" \o ToString(c) \o "}"
ToS(t) == FoldLeft(LAMBDA a, b : a \o ChrS(b), "", t)

DOLLAR == 36   CR == 13   LF == 10   STAR == 42   COMMA == 44   DOT == 46

IsAscii(t)   == \A i \in DOMAIN t : t[i] < 128
IsDigit(c)   == c \in 48..57
AllDigits(t) == \A i \in DOMAIN t : IsDigit(t[i])
HexDigits    == (48..57) \cup (65..70)
UpC(c)       == IF c \in 97..122 THEN c - 32 ELSE c
Upper(t)     == TLCEval([i \in DOMAIN t |-> UpC(t[i])])
Last1(t)     == t[Len(t)]

\* index of the first occurrence of c in t, 0 when absent
Pos(t, c) == LET I == {i \in DOMAIN t : t[i] = c}
             IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* s.split(c): always at least one field
Split(t, c) ==
  LET ps == SetToSortSeq({i \in DOMAIN t : t[i] = c}, LAMBDA a, b : a < b)
      n  == Len(ps)
  IN  TLCEval([k \in 1..(n + 1) |->
         SubSeq(t, IF k = 1 THEN 1 ELSE ps[k - 1] + 1,
                   IF k = n + 1 THEN Len(t) ELSE ps[k] - 1)])

\* join a sequence of texts with separator character c
Join(f, c) ==
  FoldLeft(LAMBDA a, b : a \o b, <<>>,
           [k \in DOMAIN f |-> IF k = 1 THEN f[k] ELSE <<c>> \o f[k]])

\* s.strip(chars): remove members of S from both ends
Strip(t, S) ==
  LET K == {i \in DOMAIN t : t[i] \notin S}
  IN  IF K = {} THEN <<>>
      ELSE SubSeq(t, CHOOSE i \in K : \A j \in K : i <= j,
                     CHOOSE i \in K : \A j \in K : i >= j)

Without(t, S) == SelectSeq(t, LAMBDA c : c \notin S)

StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

XorAll(b) == FoldLeft(LAMBDA x, y : x ^^ y, 0, b)
HexC(n)   == IF n < 10 THEN 48 + n ELSE 55 + n
Hex2(n)   == <<HexC(n \div 16), HexC(n % 16)>>

\* decimal text of a natural number
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))
PadText(n, w) == LET t == NatText(n)
                 IN  [i \in 1..(IF Len(t) < w THEN w - Len(t) ELSE 0) |-> 48] \o t
\* value of a digit text of at most 9 digits
ToNat(t) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, t)

\* suffix of an attribute inside repeating groups: _NN per nesting level
Suffix(ix) == FoldLeft(LAMBDA a, i : a \o "_" \o (IF i < 10 THEN "0" ELSE "") \o ToString(i), "", ix)

-----------------------------------------------------------------------------
(* UTF-8, strict as in Python's codec. *)
Utf8Start == [ok |-> TRUE, out |-> <<>>, need |-> 0, cp |-> 0, lo |-> 128, hi |-> 191]
Utf8Step(a, b) ==
  IF ~a.ok THEN a
  ELSE IF a.need = 0 THEN
    CASE b < 128          -> [a EXCEPT !.out = Append(@, b)]
      [] b \in 194..223   -> [a EXCEPT !.need = 1, !.cp = b - 192, !.lo = 128, !.hi = 191]
      [] b \in 224..239   -> [a EXCEPT !.need = 2, !.cp = b - 224,
                                !.lo = IF b = 224 THEN 160 ELSE 128,
                                !.hi = IF b = 237 THEN 159 ELSE 191]
      [] b \in 240..244   -> [a EXCEPT !.need = 3, !.cp = b - 240,
                                !.lo = IF b = 240 THEN 144 ELSE 128,
                                !.hi = IF b = 244 THEN 143 ELSE 191]
      [] OTHER            -> [a EXCEPT !.ok = FALSE]
  ELSE IF b \notin a.lo..a.hi THEN [a EXCEPT !.ok = FALSE]
  ELSE LET c == a.cp * 64 + (b - 128) IN
       IF a.need = 1 THEN [a EXCEPT !.need = 0, !.out = Append(@, c)]
       ELSE [a EXCEPT !.need = @ - 1, !.cp = c, !.lo = 128, !.hi = 191]
Utf8Decode(b) ==
  IF IsAscii(b) THEN [ok |-> TRUE, out |-> b]
  ELSE LET r == FoldLeft(Utf8Step, Utf8Start, b)
       IN  [ok |-> r.ok /\ r.need = 0, out |-> r.out]
EncC(c) ==
  CASE c < 128    -> <<c>>
    [] c < 2048   -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536  -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER      -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
                       128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Encode(t) == IF IsAscii(t) THEN t
                 ELSE FoldLeft(LAMBDA a, c : a \o EncC(c), <<>>, t)
=============================================================================
