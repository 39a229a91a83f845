----------------------------- MODULE ImageSpec -----------------------------
(* Package image (C33). State: the encoded image at hand, with its format, its sides and its
   pixels (row by row; <<>> when the format or a resampling left them undetermined). A pixel
   is 65536 r + 256 g + b, plus 2^24 when it is half transparent. The operations run the
   image through Encode, Resize, QualityByBinary and ResizeGIF.                            *)
EXTENDS Common
CONSTANTS Sources, Jobs

Palette == <<0, 16777215, 13181224, 766012, 1978078, 5066061, 15779850, 5900930>>
Half == 16777216 + 13181224
Formats == {"png", "bmp", "tiff", "gif", "jpeg", "webp"}
Colour(k, f) == IF k = 7 /\ f \in {"png", "tiff"} THEN Half ELSE Palette[k + 1]
\* an image of n x m pixels with the value v(x, y)
Pic(n, m, v(_, _)) == [w |-> n, h |-> m, p |-> [i \in 1..(n * m) |-> v((i - 1) % n, (i - 1) \div n)]]
Known(a) == a.p # <<>>
Pix(a, x, y) == a.p[y * a.w + x + 1]
Flat(a) == Known(a) /\ \A i \in 1..Len(a.p) : a.p[i] = a.p[1]
Moved(a, n, m, v(_, _)) == IF Known(a) THEN Pic(n, m, v) ELSE [w |-> n, h |-> m, p |-> <<>>]
Map(a, f(_)) == [a EXCEPT !.p = [i \in 1..Len(a.p) |-> f(a.p[i])]]
\* what resampling to n x m leaves: a flat image stays flat
Blank(a, n, m) == IF n = a.w /\ m = a.h THEN a ELSE [w |-> n, h |-> m, p |-> IF Flat(a) THEN [i \in 1..(n * m) |-> a.p[1]] ELSE <<>>]
\* floor of a b / c, computed in floating point
Part(a, b, c) == LET q == (a * b) \div c IN IF (a * b) % c = 0 THEN {q, q - 1} \cap Nat ELSE {q}
\* a side of 0 is for Resize the one that keeps the ratio
Sides(a, n, m) == LET near(x, y, z) == LET v == (2 * x * y + z) \div (2 * z)
                                          IN {IF u < 1 THEN 1 ELSE u : u \in {v} \cup (IF (2 * x * y + z) % (2 * z) = 0 THEN {v - 1} ELSE {})}
                  IN IF n = 0 THEN {<<u, m>> : u \in near(m, a.w, a.h)} ELSE IF m = 0 THEN {<<n, u>> : u \in near(n, a.h, a.w)} ELSE {<<n, m>>}
Resampled(a, d, filter) ==
  LET r == Blank(a, d[1], d[2])
      exact(n, k) == n % k = 0 \/ \A x \in 0..(k - 1) : ((2 * x + 1) * n) % (2 * k) # 0
      at(x, n, k) == ((2 * x + 1) * n) \div (2 * k)
      v(x, y) == Pix(a, at(x, a.w, d[1]), at(y, a.h, d[2]))
  IN IF Known(a) /\ ~Known(r) /\ filter = "near" /\ exact(a.w, d[1]) /\ exact(a.h, d[2]) THEN Pic(d[1], d[2], v) ELSE r

\* ---- the steps of Encode, in their order; each gives the set of images it may give
Min2(a, b) == IF a < b THEN a ELSE b
Crop(a, x, y, n, m) == LET v(i, j) == Pix(a, x + i, y + j) IN Moved(a, n, m, v)
Anchor(a, t) == LET x == t[3] % a.w
                    y == t[4] % a.h
                IN Crop(a, x, y, Min2(t[1], a.w - x), Min2(t[2], a.h - y))
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Side(a, t) == LET n == Min2(t[1], a.w)
                  m == Min2(t[2], a.h)
              IN Crop(a, Clamp(t[3], 0, a.w - n), Clamp(t[4], 0, a.h - m), n, m)
\* the largest n with n^2 b <= limit a: a sqrt(limit / ab)
Shrunk(a, b, limit) == LET n == CHOOSE n \in 0..a : n * n * b <= limit * a /\ (n + 1) * (n + 1) * b > limit * a
                       IN IF n * n * b = limit * a THEN {n, n - 1} \cap Nat ELSE {n}
\* covering the box (lower: inside it) with the ratio kept, with at most limit pixels
Scale(a, t, lower) ==
  LET n == IF t[1] = 0 THEN 1 ELSE t[1]
      m == IF t[2] = 0 THEN 1 ELSE t[2]
      wide == a.w * m > n * a.h
      box == IF wide = lower THEN {<<n, u>> : u \in Part(n, a.h, a.w)} ELSE {<<u, m>> : u \in Part(m, a.w, a.h)}
      fit(d) == IF t[3] > 0 /\ d[1] * d[2] > t[3] THEN {<<x, y>> : x \in Shrunk(d[1], d[2], t[3]), y \in Shrunk(d[2], d[1], t[3])} ELSE {d}
  IN {Blank(a, e[1], e[2]) : e \in UNION {Sides(a, d[1], d[2]) : d \in UNION {fit(d) : d \in box}}}
\* ---- the sides of the modes. Inside the box: as large as fits, never enlarged
Inside(w, h, n, m) == LET x == IF n = 0 THEN w ELSE n
                          y == IF m = 0 THEN h ELSE m
                      IN IF x >= w /\ y >= h THEN {<<w, h>>}
                         ELSE IF x * h < y * w THEN {<<x, u>> : u \in Part(x, h, w)}
                         ELSE IF x * h > y * w THEN {<<u, y>> : u \in Part(y, w, h)}
                         ELSE {<<x, u>> : u \in Part(x, h, w)} \cup {<<u, y>> : u \in Part(y, w, h)}
\* covering the box: as small as covers it, never enlarged
Cover(w, h, n, m) == LET x == IF n = 0 THEN w ELSE n
                         y == IF m = 0 THEN h ELSE m
                     IN IF x >= w \/ y >= h THEN {<<w, h>>}
                        ELSE IF x * h > y * w THEN {<<x, u>> : u \in Part(x, h, w)} ELSE {<<u, y>> : u \in Part(y, w, h)}
\* exactly the box, as far as the image is that large
Exactly(w, h, n, m) == LET x == IF n < w THEN n ELSE w
                           y == IF m < h THEN m ELSE h
                       IN {<<IF x = 0 THEN y ELSE x, IF y = 0 THEN x ELSE y>>}
ModeSides(mode, w, h, n, m) ==
  LET \* modes 0, 4 and 5 take the long and the short side
      l == IF w >= h THEN n ELSE m
      s == IF w >= h THEN m ELSE n
      z(x, y) == IF x = 0 THEN y ELSE x
  IN IF l > w /\ s > h /\ mode # "1" THEN {<<w, h>>}
     ELSE CASE mode = "0" -> Inside(w, h, l, s)
            [] mode = "1" -> Exactly(w, h, n, m)
            [] mode = "2" -> IF n = 0 THEN UNION {Cover(w, h, x, m) : x \in Part(m, w, h)} ELSE IF m = 0 THEN UNION {Cover(w, h, n, y) : y \in Part(n, h, w)} ELSE Cover(w, h, l, s)
            [] mode = "3" -> Cover(w, h, z(n, m), z(m, n))
            [] mode = "4" -> Cover(w, h, z(l, s), z(s, l))
            [] mode = "5" -> Exactly(w, h, l, s)
            [] OTHER -> {<<w, h>>}
Resize(a, n, m, mode, filter) ==
  IF n = 0 /\ m = 0 THEN {a}
  ELSE LET ds == ModeSides(mode, a.w, a.h, n, m) IN
       IF mode \in {"1", "5"} THEN {Blank(a, d[1], d[2]) : d \in ds}
       ELSE {Resampled(a, d, filter) : d \in UNION {Sides(a, d[1], d[2]) : d \in ds}}
\* ---- colours and turns
RGB(p, f(_, _, _)) == (p \div 16777216) * 16777216 + f((p \div 65536) % 256, (p \div 256) % 256, p % 256)
Gray(p) == LET f(r, g, b) == ((299 * r + 587 * g + 114 * b + 500) \div 1000) * 65793 IN RGB(p, f)
Invert(p) == LET f(r, g, b) == (255 - r) * 65536 + (255 - g) * 256 + 255 - b IN RGB(p, f)
\* counter-clockwise
Turn(a, deg) == LET q == (deg % 360) \div 90
                    u(x, y) == Pix(a, a.w - 1 - y, x)
                    v(x, y) == Pix(a, a.w - 1 - x, a.h - 1 - y)
                    z(x, y) == Pix(a, y, a.h - 1 - x)
                IN CASE q = 1 -> Moved(a, a.h, a.w, u) [] q = 2 -> Moved(a, a.w, a.h, v) [] q = 3 -> Moved(a, a.h, a.w, z) [] OTHER -> a
FlipH(a) == LET v(x, y) == Pix(a, a.w - 1 - x, y) IN Moved(a, a.w, a.h, v)
FlipV(a) == LET v(x, y) == Pix(a, x, a.h - 1 - y) IN Moved(a, a.w, a.h, v)

\* options of an operation: names followed by numbers
Pos(o, name) == IF \E i \in 1..Len(o) : o[i] = name THEN CHOOSE i \in 1..Len(o) : o[i] = name ELSE 0
Opt(o, name, n) == [i \in 1..n |-> Num(o[Pos(o, name) + i])]
Steps(a, o) ==
  LET on(name) == Pos(o, name) # 0
      b == IF on("anchor") THEN Anchor(a, Opt(o, "anchor", 4)) ELSE a
      c == IF on("side") THEN Side(b, Opt(o, "side", 4)) ELSE b
      d == IF on("upper") THEN Scale(c, Opt(o, "upper", 3), FALSE) ELSE {c}
      e == IF on("lower") THEN UNION {Scale(x, Opt(o, "lower", 3), TRUE) : x \in d} ELSE d
      f == UNION {Resize(x, Num(o[2]), Num(o[3]), o[4], o[5]) : x \in e}
      rest(x) == LET g == IF on("gray") THEN Map(x, Gray) ELSE x
                     i == IF on("invert") THEN Map(g, Invert) ELSE g
                     r == IF on("rotate") THEN Turn(i, Opt(o, "rotate", 1)[1]) ELSE i
                     h == IF on("fliph") THEN FlipH(r) ELSE r
                     v == IF on("flipv") THEN FlipV(h) ELSE h
                 IN IF on("blur") /\ ~Flat(v) THEN [v EXCEPT !.p = <<>>] ELSE v
  IN {rest(x) : x \in f}
\* what format f keeps; webp is lossless when it is asked for by name
Stored(a, f, named) == IF (f \in {"png", "tiff"} \/ ((f = "bmp" \/ (f = "webp" /\ named)) /\ \A i \in 1..Len(a.p) : a.p[i] < 16777216)) THEN a ELSE [a EXCEPT !.p = <<>>]
Named(f) == CASE f \in {"jpg", "jpeg"} -> "jpeg" [] f \in {"tif", "tiff"} -> "tiff" [] f \in Formats -> f [] OTHER -> ""
Told(s) == <<s.f, ToString(s.w), ToString(s.h)>>
Image(f, a) == [f |-> f, w |-> a.w, h |-> a.h, p |-> a.p]
Of(s) == [w |-> s.w, h |-> s.h, p |-> s.p]

SeqCfgs == {[x |-> "0"]}
InitStates(c) == {[f |-> "junk", w |-> 0, h |-> 0, p |-> <<>>]}
Ops == {<<"new">> \o x : x \in Sources} \cup {<<"enc">> \o j : j \in Jobs} \cup {<<"look">>, <<"still">>, <<"ico">>, <<"junk">>, <<"quality", "1">>, <<"quality", "10">>, <<"resize", "2", "0", "0">>, <<"resize", "0", "0", "0">>}
Do(s, o) ==
  CASE o[1] = "new" -> LET f == o[2]
                           n == Num(o[3])
                           m == Num(o[4])
                           k == Num(o[5])
                           v(x, y) == Colour(IF k >= 100 THEN k % 8 ELSE (k + 3 * x + 5 * y + x * y) % 8, f)
                           a == Pic(n, m, v)
                       IN {LET t == Image(f, IF f = "jpeg" THEN [a EXCEPT !.p = <<>>] ELSE a) IN Res(t, Told(t))}
    [] o[1] = "junk" -> {Res([f |-> "junk", w |-> 0, h |-> 0, p |-> <<>>], <<"ok">>)}
    [] o[1] = "still" -> {Res(s, <<"ok">>)}
       \* an animation of o[2] frames
    [] o[1] = "gif" -> LET w == Num(o[3])
                           h == Num(o[4])
                           n == Num(o[5])
                           m == Num(o[6])
                           whole == (n = 0 \/ n >= w) /\ (m = 0 \/ m >= h)
                           byw == n # 0 /\ (m = 0 \/ n * h <= m * w)
                           byh == m # 0 /\ (n = 0 \/ n * h >= m * w)
                           d == IF whole THEN {<<w, h>>} ELSE (IF byw THEN Part(n, w, w) \X Part(n, h, w) ELSE {}) \cup (IF byh THEN Part(m, w, h) \X Part(m, h, h) ELSE {})
                       IN {Res(s, <<"ok", o[2], ToString(x[1]), ToString(x[2]), "kept">>) : x \in d}
    [] s.f = "junk" -> {Res(s, <<IF o[1] = "quality" THEN "err" ELSE "same">>)}
    [] o[1] = "enc" -> LET g == IF Named(o[6]) = "" THEN s.f ELSE Named(o[6]) IN
                       {LET t == Image(g, Stored(a, g, Named(o[6]) # "")) IN Res(t, Told(t)) : a \in Steps(Of(s), o)}
    [] o[1] = "resize" -> IF o[2] = "0" /\ o[3] = "0" THEN {Res(s, <<"same">>)}
                          ELSE {LET t == Image(s.f, Stored(a, s.f, FALSE)) IN Res(t, Told(t)) : a \in Resize(Of(s), Num(o[2]), Num(o[3]), o[4], "near")}
       \* another quality, the same image
    [] o[1] = "quality" -> {LET t == IF s.f \in {"gif", "jpeg", "webp"} THEN [s EXCEPT !.p = <<>>] ELSE s IN Res(t, Told(t))}
       \* the thumbnails that go into an icon: those below the image's smaller side
    [] o[1] = "ico" -> {Res(s, <<ToString(s.w), ToString(s.h)>> \o SelectSeq(<<"16", "32", "48", "64", "128">>, LAMBDA z : Num(z) < Min2(s.w, s.h)))}
       \* the pixels; a recorded run tells them
    [] o[1] = "look" -> IF s.p # <<>> THEN {Res(s, Told(s) \o [i \in 1..Len(s.p) |-> ToString(s.p[i])])}
                        ELSE IF Len(o) > 1 /\ SubSeq(o, 2, 4) = Told(s) /\ Len(o) = 4 + s.w * s.h THEN {Res(s, Tail(o))} ELSE {}
    [] OTHER -> {}
Inv(s) == s.p # <<>> => Len(s.p) = s.w * s.h
StepOK(s, o, r, t) ==
  /\ o[1] \notin {"new", "enc", "resize", "quality", "junk"} => t = s
  /\ o[1] \in {"enc", "resize"} /\ s.f # "junk" =>
       /\ t.f = (IF o[1] = "enc" /\ Named(o[6]) # "" THEN Named(o[6]) ELSE s.f)
          \* nothing but scaling enlarges an image, nor the square that modes 1 and 5 cut when they are given one side
       /\ ~(o[4] \in {"1", "5"} /\ (o[2] = "0" \/ o[3] = "0")) /\ Pos(o, "upper") = 0 /\ Pos(o, "lower") = 0 => t.w * t.h <= s.w * s.h
          \* without cropping and scaling the same pixels are there, elsewhere
       /\ (o[1] = "enc" /\ (\A n \in {"upper", "lower", "anchor", "side", "gray", "invert"} : Pos(o, n) = 0) /\ o[2] = "0" /\ o[3] = "0") =>
            {t.w, t.h} = {s.w, s.h} /\ (s.p # <<>> /\ t.p # <<>> => Range(t.p) = Range(s.p))
  /\ o[1] = "quality" /\ s.f # "junk" => t.w = s.w /\ t.h = s.h /\ t.f = s.f
=============================================================================
