// n, {pi(n), primes 1 mod 4, primes 3 mod 4, sum of primes mod 10^9+7, Mertens, totient sum mod 10^9+7, squarefree count, divisor-count sum, Mertens over odd k}; by a segmented factorising sieve
    {10000000LL, {664579, 332180, 332398, 324971935, 1037, 356214470, 6079291LL, 162725364LL, 569}},
    {21474836LL, {1358124, 678928, 679195, 449141762, 31, 445753228, 13055159LL, 365863020LL, -230}},
    {21474882LL, {1358125, 678928, 679196, 470616613, 30, 42540019, 13055186LL, 365863934LL, -227}},
    {30000000LL, {1857859, 928779, 929079, 805731372, -1157, 198067883, 18237829LL, 521134177LL, -759}},
    {42949672LL, {2601699, 1300653, 1301045, 787221899, 25, 761719549, 26110269LL, 761496373LL, -205}},
    {42950983LL, {2601782, 1300695, 1301086, 352098700, 31, 7771584, 26111069LL, 761520905LL, -192}},
    {100000000LL, {5761455, 2880504, 2880950, 788432813, 1928, 495088463, 60792694LL, 1857511568LL, 1076}},
    {214748364LL, {11849083, 5924051, 5925031, 311729833, 3480, 447799194, 130551358LL, 4153106664LL, 2278}},
    {214748828LL, {11849105, 5924056, 5925048, 36198930, 3469, 21475063, 130551643LL, 4153116094LL, 2266}},
    {300000001LL, {16252325, 8125718, 8126606, 755721940, -592, 683244941, 182378126LL, 5902117680LL, -239}},
    {333333333LL, {17955279, 8977375, 8977903, 280121589, 2636, 694560075, 202642358LL, 6593028625LL, 3016}},
    {429496729LL, {22822681, 11410677, 11412003, 931497936, -2761, 980263777, 261102789LL, 8603917544LL, -483}},
    {429509836LL, {22823344, 11411010, 11412333, 692091004, -2604, 158368244, 261110758LL, 8604193038LL, -376}},
    {500000000LL, {26355867, 13176808, 13179058, 442699158, -2168, 333271885, 303963526LL, 10092275392LL, -2767}},
    {715827882LL, {37029520, 18513899, 18515620, 366195813, -3483, 342508625, 435171171LL, 14705525622LL, -2088}},
    {715829426LL, {37029603, 18513944, 18515658, 779977891, -3477, 388883425, 435172109LL, 14705559154LL, -2098}},
    {715829427LL, {37029603, 18513944, 18515658, 779977891, -3477, 839317945, 435172109LL, 14705559190LL, -2098}},
    {1000000000LL, {50847534, 25423491, 25424042, 919077958, -222, 45263571, 607927124LL, 20877697634LL, -2989}},
    {1000000006LL, {50847534, 25423491, 25424042, 919077958, -225, 526376360, 607927129LL, 20877697736LL, -2992}},
    {1073741823LL, {54400028, 27199095, 27200932, 204859399, -10374, 676329353, 652756722LL, 22493653293LL, -6036}},
    {1073741824LL, {54400028, 27199095, 27200932, 204859399, -10374, 213200258, 652756722LL, 22493653324LL, -6036}},
    {1073744140LL, {54400142, 27199153, 27200988, 611551379, -10360, 873113407, 652758128LL, 22493704206LL, -6033}},
    {1431655765LL, {71487634, 35742254, 35745379, 916095995, 3968, 516385926, 870342310LL, 30403399145LL, 1880}},
    {1431699456LL, {71489718, 35743285, 35746432, 532468637, 3980, 832548834, 870368868LL, 30404370649LL, 1926}},
    {1500000009LL, {74726529, 37362085, 37364443, 38081750, -6219, 471486917, 911890661LL, 31924744189LL, -3530}},
    {2147483647LL, {105097565, 52547965, 52549599, 362345147, 9569, 756450787, 1305513583LL, 46475828386LL, 3533}},
    {2147483648LL, {105097565, 52547965, 52549599, 362345147, 9569, 830192604, 1305513583LL, 46475828418LL, 3533}},
    {2147488280LL, {105097808, 52548094, 52549713, 201436188, 9472, 838492203, 1305516398LL, 46475933468LL, 3439}},
    {2147488281LL, {105097808, 52548094, 52549713, 201436188, 9472, 189795749, 1305516398LL, 46475933513LL, 3439}},
    {2147549184LL, {105100595, 52549490, 52551104, 335832174, 9441, 995097687, 1305553427LL, 46477312535LL, 3390}},
    {3000000019LL, {144449538, 72223861, 72225676, 883752263, 7458, 392446241, 1823781384LL, 65928929462LL, 3928}},
    {4294967295LL, {203280221, 101638380, 101641840, 214139299, 1814, 962743238, 2611027094LL, 95928700915LL, 5347}},
    {4294967296LL, {203280221, 101638380, 101641840, 214139299, 1814, 110226865, 2611027094LL, 95928700948LL, 5347}},
    {4295098368LL, {203286083, 101641314, 101644768, 693255858, 2168, 600764464, 2611106772LL, 95931759788LL, 5558}},
    {4295098369LL, {203286083, 101641314, 101644768, 693255858, 2168, 895797268, 2611106772LL, 95931759791LL, 5558}},
