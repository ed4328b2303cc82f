---- MODULE BenchTab ----
(* Generated by tools/bench_tab.py. *)
EXTENDS Integers, Sequences
SinTab == <<0, 1606, 3196, 4756, 6270, 7723, 9102, 10394, 11585, 12665, 13623, 14449, 15137, 15679, 16069, 16305, 16384, 16305, 16069, 15679, 15137, 14449, 13623, 12665, 11585, 10394, 9102, 7723, 6270, 4756, 3196, 1606, 0, -1606, -3196, -4756, -6270, -7723, -9102, -10394, -11585, -12665, -13623, -14449, -15137, -15679, -16069, -16305, -16384, -16305, -16069, -15679, -15137, -14449, -13623, -12665, -11585, -10394, -9102, -7723, -6270, -4756, -3196, -1606>>
ExpTab == <<16384, 14459, 12760, 11261, 9937, 8770, 7739, 6830, 6027, 5319, 4694, 4143, 3656, 3226, 2847, 2513, 2217, 1957, 1727, 1524, 1345, 1187, 1047, 924, 816, 720, 635, 561, 495, 437, 385, 340, 300, 265, 234, 206, 182, 161, 142, 125, 110, 97, 86, 76, 67, 59, 52, 46, 41, 36, 32, 28, 25, 22, 19, 17, 15, 13, 12, 10, 9, 8, 7, 6, 5, 5, 4, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Pow8Tab == <<0, 3104, 5405, 7476, 9410, 11249, 13016, 14724, 16384, 18003, 19586, 21138, 22662, 24160, 25636, 27091, 28526, 29944, 31345, 32730, 34101, 35459, 36803, 38136, 39456, 40766, 42066, 43355, 44635, 45906, 47168, 48421, 49667, 50905, 52135, 53358, 54575, 55784, 56987, 58183, 59374>>
E1 == 44536
Sin1 == 13787
Cos1 == 8852
====
