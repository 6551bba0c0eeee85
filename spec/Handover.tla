------------------------------ MODULE Handover ------------------------------
(* A session of synthesis and CLEAN with results kept in memory and in files under *)
(* name prefixes.  Values are the identities of the spectra they were made from;     *)
(* 0 stands for "nothing".                                                            *)
EXTENDS Fix
(* one operation applied to a session state [mem, cl, syn, clf]; results:            *)
(*   mem  synthesis result in memory,  cl  CLEAN result in memory,                    *)
(*   syn[p], clf[p]  files under prefix p                                              *)
Start(P) == [mem |-> 0, cl |-> 0, syn |-> [p \in P |-> 0], clf |-> [p \in P |-> 0]]
Enabled(s, op) == CASE op[1] = "synth" -> TRUE
                    [] op[1] = "save" -> s.mem # 0
                    [] op[1] = "clean" -> s.mem # 0
                    [] op[1] = "cleanfile" -> s.syn[op[2]] # 0
                    [] op[1] = "saveclean" -> s.cl # 0
                    [] op[1] = "clisynth" -> TRUE
                    [] op[1] = "cliclean" -> s.syn[op[2]] # 0
Apply(s, op) == CASE op[1] = "synth" -> [s EXCEPT !.mem = op[2]]
                  [] op[1] = "save" -> [s EXCEPT !.syn[op[2]] = s.mem]
                  [] op[1] = "clean" -> [s EXCEPT !.cl = s.mem]
                  [] op[1] = "cleanfile" -> [s EXCEPT !.cl = s.syn[op[2]]]
                  [] op[1] = "saveclean" -> [s EXCEPT !.clf[op[2]] = s.cl]
                  (* command line tools work on the files of one prefix; the data file of prefix p holds spectrum p *)
                  [] op[1] = "clisynth" -> [s EXCEPT !.syn[op[2]] = op[2]]
                  [] op[1] = "cliclean" -> [s EXCEPT !.clf[op[2]] = s.syn[op[2]]]
=============================================================================
