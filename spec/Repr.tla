-------------------------------- MODULE Repr --------------------------------
(* eval(repr(m)): e.m is the message, e.res the result of evaluating its repr *)
EXTENDS Message
ReprVerdict(e) ==
  IF e.res.kind # "msg" THEN {"repr:kind:" \o e.res.kind}
  ELSE LET a == e.m  b == e.res.m
           c == Utf8Encode(<<DOLLAR>> \o a.talker \o a.id \o FoldLeft(LAMBDA x, f : x \o <<COMMA>> \o f, <<>>, a.pl))
           good == a.ck = Hex2(XorAll(Tail(c)))
       IN  Tag(a.talker = b.talker, "repr:talker") \cup Tag(a.id = b.id, "repr:msgID") \cup Tag(a.mode = b.mode, "repr:mode")
           \cup Tag(a.pl = b.pl, "repr:payload") \cup Tag(a.at = b.at, "repr:attributes") \cup Tag(a.ident = b.ident, "repr:identity")
           \cup Tag(a.str = b.str, "repr:str")
           \cup (IF good THEN Tag(a.ser = b.ser, "repr:serialize") ELSE {})
=============================================================================
