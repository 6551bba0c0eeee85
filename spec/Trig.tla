-------------------------------- MODULE Trig --------------------------------
(* The unit circle in half-degree steps, scaled by 10^5.  This table is the only *)
(* "analysis" the specifications need: every case uses channel positions and     *)
(* Faraday depths on a lattice on which all phases are multiples of half a degree.*)
EXTENDS Integers, Sequences
LOCAL Q == << 100000, 99996, 99985, 99966, 99939, 99905, 99863, 99813, 99756, 99692, 99619, 99540,
           99452, 99357, 99255, 99144, 99027, 98902, 98769, 98629, 98481, 98325, 98163, 97992,
           97815, 97630, 97437, 97237, 97030, 96815, 96593, 96363, 96126, 95882, 95630, 95372,
           95106, 94832, 94552, 94264, 93969, 93667, 93358, 93042, 92718, 92388, 92050, 91706,
           91355, 90996, 90631, 90259, 89879, 89493, 89101, 88701, 88295, 87882, 87462, 87036,
           86603, 86163, 85717, 85264, 84805, 84339, 83867, 83389, 82904, 82413, 81915, 81412,
           80902, 80386, 79864, 79335, 78801, 78261, 77715, 77162, 76604, 76041, 75471, 74896,
           74314, 73728, 73135, 72537, 71934, 71325, 70711, 70091, 69466, 68835, 68200, 67559,
           66913, 66262, 65606, 64945, 64279, 63608, 62932, 62251, 61566, 60876, 60182, 59482,
           58779, 58070, 57358, 56641, 55919, 55194, 54464, 53730, 52992, 52250, 51504, 50754,
           50000, 49242, 48481, 47716, 46947, 46175, 45399, 44620, 43837, 43051, 42262, 41469,
           40674, 39875, 39073, 38268, 37461, 36650, 35837, 35021, 34202, 33381, 32557, 31730,
           30902, 30071, 29237, 28402, 27564, 26724, 25882, 25038, 24192, 23345, 22495, 21644,
           20791, 19937, 19081, 18224, 17365, 16505, 15643, 14781, 13917, 13053, 12187, 11320,
           10453, 9585, 8716, 7846, 6976, 6105, 5234, 4362, 3490, 2618, 1745, 873,
           0 >>
TURN == 720
TS == 100000
Cos(k) == LET t == k % 720 IN
            IF t <= 180 THEN Q[t + 1]
            ELSE IF t <= 360 THEN -Q[361 - t]
            ELSE IF t <= 540 THEN -Q[t - 359]
            ELSE Q[721 - t]
Sin(k) == Cos(k - 180)
(* angles in 1/1000 degree, interpolated in the table *)
CosM(m) == LET k == m \div 500 f == m % 500 IN Cos(k) + ((Cos(k + 1) - Cos(k)) * f) \div 500
SinM(m) == CosM(m - 90000)
=============================================================================
