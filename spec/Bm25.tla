------------------------------- MODULE Bm25 -------------------------------
(* The ranking function (k1 = 0.9, b = 0.4, no document frequency smoothing) and its quantisation, in millionths.  TLC's integers
   have 32 bits, so products and quotients are taken apart. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Million == 1000000
Ln == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883, 4174387, 4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666, 4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027>>
\* a / b in millionths
Ratio(a, b) == FoldLeft(LAMBDA x, i : <<10 * x[1] + ((10 * x[2]) \div b), (10 * x[2]) % b>>, <<a \div b, a % b>>, <<1, 2, 3, 4, 5, 6>>)[1]
Times(a, b) == (a \div 1000) * (b \div 1000) + ((a \div 1000) * (b % 1000) + (a % 1000) * (b \div 1000)) \div 1000 + ((a % 1000) * (b % 1000)) \div Million
\* the same where only some of all documents are here
ScoreIn(all, n, sum, df, tf, len) == Times(Ln[all] - Ln[df], Ratio(190 * tf * sum, (100 * tf + 54) * sum + 36 * len * n))
\* df documents of n hold the term, this one tf times among its len words; all documents together have sum words
Score(n, sum, df, tf, len) == ScoreIn(n, n, sum, df, tf, len)
Margin == 20                \* what rounding can add up to
LargestImpact == 1024
Low(a, b) == IF a < b THEN a ELSE b
High(a, b) == IF a > b THEN a ELSE b
\* linear, rounded down; next to a whole number either is right.  Too narrow a range says nothing.
Impacts(s, lo, hi) ==
  IF hi - lo < 2000 THEN 1..LargestImpact
  ELSE LET r == Ratio(s - lo, hi - lo)
           e == 2 + (2 * Margin * Million) \div (hi - lo)
       IN 1 + (High(0, r - e) * (LargestImpact - 1)) \div Million .. 1 + (Low(Million, r + e) * (LargestImpact - 1)) \div Million
\* a number of times scaled to the range of impacts; rounding may take one off where it comes out even
Scaled(tf, lo, hi) == IF hi = lo THEN 1..LargestImpact
                      ELSE LET x == (tf - lo) * (LargestImpact - 1) IN IF tf # hi /\ x % (hi - lo) = 0 /\ x > 0 THEN {x \div (hi - lo), 1 + x \div (hi - lo)} ELSE {1 + x \div (hi - lo)}
===========================================================================
