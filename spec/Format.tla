------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The published interchange format (RoaringFormatSpec) at byte level.     *)
(*                                                                         *)
(* Encode gives the bytes the format prescribes for a sequence of          *)
(* containers; Decode classifies any byte string given to a bounded reader:*)
(*                                                                         *)
(*   "short"   the string ends before the document does: no bitmap         *)
(*   "bad"     not a document (cookie, container count): no bitmap         *)
(*   "invalid" the structure fits, but the content denotes no set (keys or *)
(*             values out of order, overflowing runs, wrong cardinality of *)
(*             a bitset, ...): no bitmap, or one the validity check rejects*)
(*   "loose"   denotes the set v, but in a form the format does not use    *)
(*             (touching runs, redundant fields that disagree): no bitmap, *)
(*             one that is rejected, or exactly v                          *)
(*   "valid"   a document denoting v: exactly v                            *)
(*                                                                         *)
(* The same for the 64-bit extension, for the library's own list form and  *)
(* for its zero-copy image (directory at the end, one zone per kind).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS MaxLen,    \* containers per enumerated document of mixed kinds
          Big,       \* include containers of 8 KB
          Full       \* corrupt every byte (otherwise only some)

VARIABLES kind, doc, stage
vars == <<kind, doc, stage>>

---------------------------------------------------------------------------
\* little-endian integers
LE16(v) == << v % 256, v \div 256 >>
LE32(v) == << v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256 >>
LE64(v) == LE32(v) \o << 0, 0, 0, 0 >>
U16(d, i) == d[i] + 256 * d[i + 1]                       \* 1-based position
\* an unsigned 32-bit field, saturated (TLC integers are 32 bit signed)
U32(d, i) == IF d[i + 3] >= 64 THEN 2^30 + 1 ELSE d[i] + 256 * d[i + 1] + 65536 * d[i + 2] + 16777216 * d[i + 3]

---------------------------------------------------------------------------
\* A container: its key, its kind, and its content as a sequence of <<first, last>>:
\* one pair per element ("a"), per run ("r"), per maximal interval ("b").
SumUp(s) == FoldLeft(LAMBDA acc, p : acc + p[2] - p[1] + 1, 0, s)
Card(c) == SumUp(c.s)
Pow == << 1, 2, 4, 8, 16, 32, 64, 128 >>
BitsetBytes(s) ==
  [ j \in 1..8192 |->
      LET f == 8 * (j - 1) IN
      IF \E i \in DOMAIN s : s[i][1] <= f /\ f + 7 <= s[i][2] THEN 255
      ELSE IF \A i \in DOMAIN s : s[i][2] < f \/ f + 7 < s[i][1] THEN 0
      ELSE FoldLeft(LAMBDA acc, b : acc + (IF \E i \in DOMAIN s : s[i][1] <= f + b - 1 /\ f + b - 1 <= s[i][2] THEN Pow[b] ELSE 0),
                    0, << 1, 2, 3, 4, 5, 6, 7, 8 >>) ]
Payload(c) ==
  CASE c.k = "a" -> [ i \in 1..(2 * Len(c.s)) |-> LE16(c.s[(i + 1) \div 2][1])[2 - (i % 2)] ]
    [] c.k = "r" -> LE16(Len(c.s)) \o
                    [ i \in 1..(4 * Len(c.s)) |->
                        LET r == c.s[(i + 3) \div 4] b == << LE16(r[1]), LE16(r[2] - r[1]) >> IN
                        b[1 + (((i - 1) % 4) \div 2)][1 + ((i - 1) % 2)] ]
    [] c.k = "b" -> BitsetBytes(c.s)
PayloadSize(c) == CASE c.k = "a" -> 2 * Len(c.s) [] c.k = "r" -> 2 + 4 * Len(c.s) [] c.k = "b" -> 8192

NoRunCookie == 12346
RunCookie == 12347
HasRun(cs) == \E i \in DOMAIN cs : cs[i].k = "r"
RunFlags(cs) == [ j \in 1..((Len(cs) + 7) \div 8) |->
                    FoldLeft(LAMBDA acc, b : acc + (IF 8 * (j - 1) + b <= Len(cs) /\ cs[Min({8 * (j - 1) + b, Len(cs)})].k = "r" THEN Pow[b] ELSE 0),
                             0, << 1, 2, 3, 4, 5, 6, 7, 8 >>) ]
\* run: with the cookie that announces run flags (always when there is a run container)
EncodeAs(cs, run) ==
  LET n == Len(cs)
      head == IF run THEN LE16(RunCookie) \o LE16(n - 1) \o RunFlags(cs) ELSE LE32(NoRunCookie) \o LE32(n)
      desc == FoldLeft(LAMBDA acc, c : acc \o LE16(c.key) \o LE16(Card(c) - 1), << >>, cs)
      offs == ~run \/ n >= 4
      first == Len(head) + Len(desc) + (IF offs THEN 4 * n ELSE 0)
      table == FoldLeft(LAMBDA acc, c : [ o |-> acc.o \o LE32(acc.at), at |-> acc.at + PayloadSize(c) ], [ o |-> << >>, at |-> first ], cs)
  IN head \o desc \o (IF offs THEN table.o ELSE << >>) \o FoldLeft(LAMBDA acc, c : acc \o Payload(c), << >>, cs)
Encode(cs) == EncodeAs(cs, HasRun(cs))

---------------------------------------------------------------------------
\* Reading the string d from position at (0-based), nothing beyond its end.
Fail(why) == [ res |-> why, size |-> 0, v |-> << >> ]
Max2(a, b) == IF a > b THEN a ELSE b
\* 0: denotes no set; 1: denotes one, in an unusual form; 2: proper
BitsetIntervals(d, p) ==      \* maximal intervals of the bits of the 8192 bytes after position p
  LET byte(j) == d[p + j]
      edge == { j \in 1..8192 : byte(j) # (IF j = 1 THEN 0 ELSE byte(j - 1)) \/ byte(j) \notin {0, 255} \/ (j < 8192 /\ byte(j) # byte(j + 1)) \/ j = 8192 }
      bit(v) == (byte((v \div 8) + 1) \div Pow[(v % 8) + 1]) % 2 = 1
      cand == UNION { 8 * (j - 1) .. 8 * j - 1 : j \in edge }
      lo == SetToSortSeq({ v \in cand : bit(v) /\ (v = 0 \/ ~bit(v - 1)) }, <)
      hi == SetToSortSeq({ v \in cand : bit(v) /\ (v = 65535 \/ ~bit(v + 1)) }, <)
  IN [ i \in DOMAIN lo |-> << lo[i], hi[i] >> ]
\* the container starting after position p: [ok: fits, size, s: content, good]
ReadContainer(d, p, isrun, card) ==
  LET room == Len(d) - p IN
  IF isrun THEN
    IF room < 2 THEN [ ok |-> FALSE ]
    ELSE LET n == U16(d, p + 1)
             s == [ i \in 1..n |-> LET a == U16(d, p + 4 * i - 1) IN << a, a + U16(d, p + 4 * i + 1) >> ]
         IN IF room < 2 + 4 * n THEN [ ok |-> FALSE ]
            ELSE [ ok |-> TRUE, size |-> 2 + 4 * n, s |-> s,
                   good |-> IF n = 0 \/ (\E i \in 1..n : s[i][2] > 65535) \/ (\E i \in 1..(n - 1) : s[i + 1][1] <= s[i][2]) THEN 0
                            ELSE IF (\E i \in 1..(n - 1) : s[i + 1][1] = s[i][2] + 1) \/ SumUp(s) # card THEN 1 ELSE 2 ]
  ELSE IF card <= 4096 THEN
    IF room < 2 * card THEN [ ok |-> FALSE ]
    ELSE LET s == [ i \in 1..card |-> << U16(d, p + 2 * i - 1), U16(d, p + 2 * i - 1) >> ]
         IN [ ok |-> TRUE, size |-> 2 * card, s |-> s, good |-> IF \E i \in 1..(card - 1) : s[i + 1][1] <= s[i][1] THEN 0 ELSE 2 ]
  ELSE IF room < 8192 THEN [ ok |-> FALSE ]
       ELSE LET s == BitsetIntervals(d, p)
            IN [ ok |-> TRUE, size |-> 8192, s |-> s, good |-> IF SumUp(s) # card THEN 0 ELSE 2 ]

Decode(d, at) ==
  LET room == Len(d) - at
      run == room >= 4 /\ U16(d, at + 1) = RunCookie
      plain == room >= 4 /\ U16(d, at + 1) = NoRunCookie /\ U16(d, at + 3) = 0
  IN
  IF room < 4 THEN Fail("short")
  ELSE IF ~run /\ ~plain THEN Fail("bad")
  ELSE IF plain /\ room < 8 THEN Fail("short")
  ELSE
    LET n == IF run THEN U16(d, at + 3) + 1 ELSE U32(d, at + 5)
        flags == at + (IF run THEN 4 ELSE 8)
        desc == flags + (IF run THEN (n + 7) \div 8 ELSE 0)
        offs == ~run \/ n >= 4
        body == desc + 4 * n + (IF offs THEN 4 * n ELSE 0)
        key(i) == U16(d, desc + 4 * i - 3)
        card(i) == U16(d, desc + 4 * i - 1) + 1
        isrun(i) == run /\ (d[flags + 1 + ((i - 1) \div 8)] \div Pow[1 + ((i - 1) % 8)]) % 2 = 1
    IN
    IF n > 65536 THEN Fail("bad")
    ELSE IF Len(d) < body THEN Fail("short")
    ELSE
      LET step(acc, i) ==
            IF ~acc.ok THEN acc
            ELSE LET c == ReadContainer(d, acc.p, isrun(i), card(i)) IN
                 IF ~c.ok THEN [ acc EXCEPT !.ok = FALSE ]
                 ELSE [ ok |-> TRUE, p |-> acc.p + c.size,
                        good |-> Min({ acc.good, c.good,
                                       IF i > 1 /\ key(i) <= key(Max2(i - 1, 1)) THEN 0 ELSE 2,
                                       IF offs /\ U32(d, desc + 4 * n + 4 * i - 3) # acc.p - at THEN 1 ELSE 2 }),
                        v |-> acc.v \o [ j \in DOMAIN c.s |-> << key(i), c.s[j][1], c.s[j][2] >> ] ]
          spare == run /\ n % 8 # 0 /\ d[flags + ((n + 7) \div 8)] >= Pow[1 + (n % 8)]
          all == FoldLeft(step, [ ok |-> TRUE, p |-> body, good |-> IF spare THEN 1 ELSE 2, v |-> << >> ], [ i \in 1..n |-> i ])
      IN IF ~all.ok THEN Fail("short")
         ELSE [ res |-> << "invalid", "loose", "valid" >>[all.good + 1], size |-> all.p - at, v |-> IF all.good = 0 THEN << >> ELSE all.v ]

\* the 64-bit extension: number of buckets, then <high 32 bits, 32-bit document> each, ascending
Encode64(bs) == LE64(Len(bs)) \o FoldLeft(LAMBDA acc, b : acc \o LE32(b.high) \o EncodeAs(b.cs, b.run), << >>, bs)
Rank(r) == CASE r = "invalid" -> 0 [] r = "loose" -> 1 [] r = "valid" -> 2
Decode64(d) ==
  IF Len(d) < 8 THEN Fail("short")
  ELSE IF \E i \in 5..8 : d[i] # 0 THEN Fail("bad")
  ELSE
    LET n == U32(d, 1)
        RECURSIVE go(_, _, _, _, _)
        go(i, p, prev, good, v) ==
          IF i > n THEN [ res |-> << "invalid", "loose", "valid" >>[good + 1], size |-> p, v |-> IF good = 0 THEN << >> ELSE v ]
          ELSE IF Len(d) < p + 4 THEN Fail("short")
          ELSE LET high == << U16(d, p + 3), U16(d, p + 1) >>
                   c == Decode(d, p + 4)
               IN IF c.res \in {"short", "bad"} THEN c
                  ELSE go(i + 1, p + 4 + c.size, high,
                          Min({ good, Rank(c.res),
                                IF i > 1 /\ (high[1] < prev[1] \/ (high[1] = prev[1] /\ high[2] <= prev[2])) THEN 0 ELSE 2,
                                IF c.v = << >> THEN 1 ELSE 2 }),      \* a bucket without values
                          v \o [ j \in DOMAIN c.v |-> << high[1], high[2], c.v[j][1], c.v[j][2], c.v[j][3] >> ])
    IN go(1, 8, << 0, 0 >>, 2, << >>)

\* the library's own form: 1, count, values in any order - or 2 and a portable document
DecodeOwn(d) ==
  IF Len(d) < 1 THEN Fail("short")
  ELSE IF d[1] = 2 THEN LET c == Decode(d, 1) IN IF c.size = 0 THEN c ELSE [ c EXCEPT !.size = @ + 1 ]
  ELSE IF d[1] # 1 THEN Fail("bad")
  ELSE IF Len(d) < 5 THEN Fail("short")
  ELSE LET n == U32(d, 2) IN
       IF n > 100000 \/ Len(d) < 5 + 4 * n THEN Fail("short")
       ELSE [ res |-> IF n = 0 THEN "loose" ELSE "valid", size |-> 5 + 4 * n,
              v |-> [ i \in 1..n |-> << U16(d, 4 + 4 * i), U16(d, 2 + 4 * i), U16(d, 2 + 4 * i) >> ] ]

\* the library's zero-copy image: the bitsets, the runs and the arrays of all containers, then the keys, the counts
\* (values less one; runs), the kinds, and a word with the number of containers and the cookie. It fills its buffer exactly.
FrozenCookie == 13766
FrozenKind == << "b", "a", "r" >>
Zone(cs, k) == FoldLeft(LAMBDA acc, c : IF c.k # k THEN acc ELSE acc \o (IF k = "r" THEN SubSeq(Payload(c), 3, PayloadSize(c)) ELSE Payload(c)), << >>, cs)
EncodeFrozen(cs) ==
  LET n == Len(cs) IN
  Zone(cs, "b") \o Zone(cs, "r") \o Zone(cs, "a")
  \o FoldLeft(LAMBDA acc, c : acc \o LE16(c.key), << >>, cs)
  \o FoldLeft(LAMBDA acc, c : acc \o LE16(IF c.k = "r" THEN Len(c.s) ELSE Card(c) - 1), << >>, cs)
  \o [ i \in 1..n |-> CHOOSE t \in 1..3 : FrozenKind[t] = cs[i].k ]
  \o LE16((n % 2) * 32768 + FrozenCookie) \o LE16(n \div 2)
DecodeFrozen(d) ==
  LET len == Len(d) IN
  IF len < 4 THEN Fail("short")
  ELSE IF U16(d, len - 3) % 32768 # FrozenCookie THEN Fail("bad")
  ELSE
    LET n == (U16(d, len - 3) \div 32768) + 2 * U16(d, len - 1)
        dir == len - 4 - 5 * n
    IN
    IF dir < 0 THEN Fail("short")
    ELSE
      LET key(i) == U16(d, dir + 2 * i - 1)
          cnt(i) == U16(d, dir + 2 * n + 2 * i - 1)
          code(i) == d[dir + 4 * n + i]
          size(i) == CASE code(i) = 1 -> 8192 [] code(i) = 2 -> 2 * (cnt(i) + 1) [] code(i) = 3 -> 4 * cnt(i)
          zone(t) == FoldLeft(LAMBDA acc, i : IF code(i) = t THEN acc + size(i) ELSE acc, 0, [ i \in 1..n |-> i ])
      IN
      IF \E i \in 1..n : code(i) \notin 1..3 THEN Fail("bad")
      ELSE IF zone(1) + zone(2) + zone(3) # dir THEN Fail("short")
      ELSE
        LET content(i, p) ==
              CASE code(i) = 1 -> LET s == BitsetIntervals(d, p) IN
                     [ s |-> s, good |-> IF SumUp(s) # cnt(i) + 1 THEN 0 ELSE IF cnt(i) < 4096 THEN 1 ELSE 2 ]
                [] code(i) = 2 -> LET s == [ j \in 1..(cnt(i) + 1) |-> << U16(d, p + 2 * j - 1), U16(d, p + 2 * j - 1) >> ] IN
                     [ s |-> s, good |-> IF \E j \in 1..cnt(i) : s[j + 1][1] <= s[j][1] THEN 0 ELSE IF cnt(i) >= 4096 THEN 1 ELSE 2 ]
                [] code(i) = 3 -> LET s == [ j \in 1..cnt(i) |-> LET a == U16(d, p + 4 * j - 3) IN << a, a + U16(d, p + 4 * j - 1) >> ] IN
                     [ s |-> s, good |-> IF cnt(i) = 0 \/ (\E j \in 1..cnt(i) : s[j][2] > 65535) \/ (\E j \in 1..(cnt(i) - 1) : s[j + 1][1] <= s[j][2]) THEN 0
                                         ELSE IF \E j \in 1..(cnt(i) - 1) : s[j + 1][1] = s[j][2] + 1 THEN 1 ELSE 2 ]
            step(acc, i) ==
              LET c == content(i, acc.at[code(i)]) IN
              [ at |-> [ acc.at EXCEPT ![code(i)] = @ + size(i) ],
                good |-> Min({ acc.good, c.good, IF i > 1 /\ key(i) <= key(Max2(i - 1, 1)) THEN 0 ELSE 2 }),
                v |-> acc.v \o [ j \in DOMAIN c.s |-> << key(i), c.s[j][1], c.s[j][2] >> ] ]
            all == FoldLeft(step, [ at |-> << 0, zone(1) + zone(3), zone(1) >>, good |-> 2, v |-> << >> ], [ i \in 1..n |-> i ])
        IN [ res |-> << "invalid", "loose", "valid" >>[all.good + 1], size |-> len, v |-> IF all.good = 0 THEN << >> ELSE all.v ]

\* the C++ map's zero-copy image: the number of buckets, then, each padded so that the image starts at a multiple of 32,
\* <size, high 32 bits, image>. (No reader of it is bounded, so only whole images are given to one.)
Pad(d, more) == d \o [ i \in 1..((32 - ((Len(d) + more) % 32)) % 32) |-> 0 ]
EncodeFrozenMap(bs) ==
  FoldLeft(LAMBDA acc, b : LET z == EncodeFrozen(b.cs) IN Pad(acc, 12) \o LE64(Len(z)) \o LE32(b.high) \o z, LE64(Len(bs)), bs)
DecodeFrozenMap(d) ==
  IF Len(d) < 8 THEN Fail("short")
  ELSE
    LET n == U32(d, 1)
        RECURSIVE go(_, _, _, _)
        go(i, q, prev, v) ==
          IF i > n THEN [ res |-> "valid", size |-> q, v |-> v ]
          ELSE LET p == q + ((32 - ((q + 12) % 32)) % 32) IN
               IF Len(d) < p + 12 THEN Fail("short")
               ELSE LET len == U32(d, p + 1)
                        high == << U16(d, p + 11), U16(d, p + 9) >>
                    IN IF Len(d) < p + 12 + len THEN Fail("short")
                       ELSE LET c == DecodeFrozen(SubSeq(d, p + 13, p + 12 + len)) IN
                            IF c.res # "valid" \/ (i > 1 /\ (high[1] < prev[1] \/ (high[1] = prev[1] /\ high[2] <= prev[2]))) THEN Fail("bad")
                            ELSE go(i + 1, p + 12 + len, high, v \o [ j \in DOMAIN c.v |-> << high[1], high[2], c.v[j][1], c.v[j][2], c.v[j][3] >> ])
    IN go(1, 8, << 0, 0 >>, << >>)

Read(k, d) == CASE k = "fm" -> DecodeFrozenMap(d) [] k = "p32" -> Decode(d, 0) [] k = "p64" -> Decode64(d) [] k = "own" -> DecodeOwn(d) [] k = "fz" -> DecodeFrozen(d)

---------------------------------------------------------------------------
\* The documents explored.
One(seq) == [ i \in DOMAIN seq |-> << seq[i], seq[i] >> ]
SmallC == { [ k |-> "a", s |-> One(<< 0 >>) ], [ k |-> "a", s |-> One(<< 5, 7 >>) ], [ k |-> "a", s |-> One(<< 255, 256, 65535 >>) ],
            [ k |-> "r", s |-> << << 0, 0 >> >> ], [ k |-> "r", s |-> << << 10, 15 >>, << 20, 20 >> >> ], [ k |-> "r", s |-> << << 0, 65535 >> >> ],
            [ k |-> "r", s |-> << << 3, 3 >>, << 5, 5 >>, << 65535, 65535 >> >> ], [ k |-> "r", s |-> << << 65280, 65535 >> >> ] }
BigC == { [ k |-> "b", s |-> << << 0, 4096 >> >> ], [ k |-> "b", s |-> << << 0, 65535 >> >> ],
          [ k |-> "b", s |-> << << 1, 1 >>, << 63, 64 >>, << 1000, 6000 >>, << 65535, 65535 >> >> ],
          [ k |-> "a", s |-> One([ i \in 1..4096 |-> 16 * i - 16 ]) ], [ k |-> "r", s |-> [ i \in 1..2048 |-> << 32 * i - 32, 32 * i - 16 >> ] ] }
Cat == SmallC \cup (IF Big THEN BigC ELSE {})
Two == { [ k |-> "a", s |-> One(<< 5, 7 >>) ], [ k |-> "r", s |-> << << 10, 15 >>, << 20, 20 >> >> ] }
Keys(n) == { [ i \in 1..n |-> i - 1 ], [ i \in 1..n |-> 65536 - n + i - 1 ], [ i \in 1..n |-> 300 * i ] }
Keyed(cs, ks) == [ i \in DOMAIN cs |-> [ key |-> ks[i], k |-> cs[i].k, s |-> cs[i].s ] ]
SeqsOf(S, n) == [ 1..n -> S ]
Lists == { Keyed(cs, ks) : cs \in SeqsOf(Cat, 0), ks \in Keys(0) }
         \cup { Keyed(cs, ks) : cs \in SeqsOf(Cat, 1), ks \in Keys(1) }
         \cup UNION { { Keyed(cs, [ i \in 1..n |-> 300 * i ]) : cs \in SeqsOf(SmallC, n) } : n \in 2..MaxLen }
         \cup UNION { { Keyed(cs, ks) : cs \in SeqsOf(Two, n), ks \in Keys(n) } : n \in 3..5 }
         \cup { Keyed([ i \in 1..n |-> IF i \in R THEN [ k |-> "r", s |-> << << 7, 9 >> >> ] ELSE [ k |-> "a", s |-> One(<< 1 >>) ] ], [ i \in 1..n |-> 2 * i ])
                  : n \in {7, 8, 9, 16, 17}, R \in {{}, {1}, {7}, {8}, {9}, {16}, {17}, {1, 8, 9}} }
         \cup (IF Big THEN { Keyed(<< x, y >>, << 0, 65535 >>) : x \in BigC, y \in Cat } \cup { Keyed(<< x, y >>, << 7, 8 >>) : x \in SmallC, y \in BigC }
                           \cup { Keyed(<< x, y, x, z >>, << 1, 2, 3, 5 >>) : x \in SmallC, y \in BigC, z \in Two } ELSE {})
\* all kinds interleaved, so that the zones are filled out of the order of the keys
FrozenLists == { cs \in Lists : Len(cs) <= 4 } \cup
  (IF Big THEN { Keyed([ i \in DOMAIN f |-> IF f[i] = 1 THEN [ k |-> "b", s |-> << << i, i + 4500 >> >> ]
                                            ELSE IF f[i] = 2 THEN [ k |-> "a", s |-> One(<< i, 10 * i >>) ] ELSE [ k |-> "r", s |-> << << i, 7 * i >> >> ] ],
                       [ i \in DOMAIN f |-> 1000 * i ]) : f \in [ 1..4 -> 1..3 ] } ELSE {})
Few == { << >> } \cup { Keyed(<< x >>, << 4 >>) : x \in SmallC } \cup { Keyed(<< x, y >>, << 0, 65535 >>) : x \in Two, y \in Two }
Highs == { << 0, 1 >>, << 5, 70000 >>, << 65535, 2^30 >> }
Docs64 ==
  { << >> } \cup { << [ high |-> h, cs |-> cs, run |-> HasRun(cs) ] >> : h \in {0, 1, 65536}, cs \in Few }
  \cup { << [ high |-> h[1], cs |-> c1, run |-> HasRun(c1) ], [ high |-> h[2], cs |-> c2, run |-> HasRun(c2) ] >> : h \in Highs, c1 \in Few, c2 \in Few }
Own == { << 1 >> \o LE32(0), << 1 >> \o LE32(1) \o LE32(65535), << 1 >> \o LE32(3) \o LE32(7) \o LE32(65536) \o LE32(2^30),
         << 1 >> \o LE32(4) \o LE32(9) \o LE32(3) \o LE32(3) \o LE32(70000) } \cup { << 2 >> \o Encode(cs) : cs \in Few }

Out(k, d, what) == LET r == Read(k, d) IN PrintT(ToString(<< "FD", k, what, r.res, r.size, Len(d), d, "V", Len(r.v), r.v >>))

Init == kind = "none" /\ doc = << >> /\ stage = 0
Write ==
  /\ stage = 0 /\ stage' = 1
  /\ \/ /\ kind' = "p32" /\ \E cs \in Lists : \E run \in { HasRun(cs), Len(cs) > 0 } : doc' = EncodeAs(cs, run) /\ Out(kind', doc', IF run = HasRun(cs) THEN "written" ELSE "allowed")
     \/ /\ kind' = "p64" /\ \E bs \in Docs64 : doc' = Encode64(bs) /\ Out(kind', doc', "written")
     \/ /\ kind' = "own" /\ doc' \in Own /\ Out(kind', doc', "allowed")
     \/ /\ kind' = "fm" /\ \E bs \in Docs64 : doc' = EncodeFrozenMap(bs) /\ Out(kind', doc', "written")
     \/ /\ kind' = "fz" /\ \E cs \in FrozenLists : doc' = EncodeFrozen(cs) /\ Out(kind', doc', "written")
\* one byte replaced
Spoil ==
  /\ stage = 1 /\ stage' = 2 /\ kind' = kind /\ kind # "fm"
  /\ Len(doc) <= (IF Full THEN 120 ELSE 64)
  /\ \E i \in DOMAIN doc : \E b \in (IF Full THEN { 0, 1, 58, 59, 127, 128, 255 } ELSE { 0, 255 }) \cup { (doc[i] + 1) % 256, (doc[i] + 255) % 256 } :
       /\ b # doc[i]
       /\ (~Full => (i + Len(doc)) % 3 = 0 \/ Len(doc) < 28)
       /\ doc' = [ doc EXCEPT ![i] = b ] /\ Out(kind, doc', "spoiled")
\* one byte missing or doubled
Slip ==
  /\ stage = 1 /\ stage' = 2 /\ kind' = kind /\ kind # "fm"
  /\ Len(doc) <= (IF Full THEN 120 ELSE 40) /\ Len(doc) > 0
  /\ \E i \in DOMAIN doc : \E two \in BOOLEAN :
       /\ (~Full => i % 2 = 1)
       /\ doc' = (IF two THEN SubSeq(doc, 1, i) \o SubSeq(doc, i, Len(doc)) ELSE SubSeq(doc, 1, i - 1) \o SubSeq(doc, i + 1, Len(doc)))
       /\ Out(kind, doc', "slipped")
Next == Write \/ Spoil \/ Slip
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* What the format itself must satisfy.
\* what is written is read back, entirely, as the same content
RoundTrip ==
  stage = 0 =>
    /\ \A cs \in Lists : \A run \in { HasRun(cs), Len(cs) > 0 } :
         LET d == EncodeAs(cs, run) r == Decode(d, 0) IN
         /\ r.res = "valid" /\ r.size = Len(d)
         /\ r.v = FoldLeft(LAMBDA acc, c : acc \o [ j \in DOMAIN c.s |-> << c.key, c.s[j][1], c.s[j][2] >> ], << >>, cs)
    /\ \A cs \in FrozenLists :
         LET d == EncodeFrozen(cs) r == DecodeFrozen(d) IN
         /\ r.res = "valid" /\ r.size = Len(d)
         /\ r.v = FoldLeft(LAMBDA acc, c : acc \o [ j \in DOMAIN c.s |-> << c.key, c.s[j][1], c.s[j][2] >> ], << >>, cs)
\* every proper prefix of a written document is recognized as such; bytes after it do not matter
Prefix == stage = 1 /\ Len(doc) <= 100 =>
  LET r == Read(kind, doc) IN
  /\ (kind \in {"p32", "fz", "fm"} => r.size = Len(doc))
  /\ \A n \in 0..(Len(doc) - 1) : Read(kind, SubSeq(doc, 1, n)).res \in (IF kind = "fz" THEN {"short", "bad"} ELSE {"short"})
  /\ (kind # "fz" => Read(kind, doc \o << 58, 48, 0, 0 >>) = r)
\* what is read never extends beyond the string
Bounded == LET r == Read(kind, doc) IN stage > 0 => r.size <= Len(doc)
=============================================================================
