----------------------------- MODULE RMCleanMC ------------------------------
(* The CLEAN machine for one spectrum of N samples, all dirty spectra over a small *)
(* alphabet, several cutoffs, windows and iteration limits.                        *)
EXTENDS RMClean, Json, CSV, IOUtils
CONSTANTS N, Dom, Cutoffs, Windows, Limits, F2, Gain, Emit
VARIABLES dirty, cutoff, window, limit, stage, resid, cc, win, iter, path
vars == <<dirty, cutoff, window, limit, stage, resid, cc, win, iter, path>>
cfg == <<dirty, cutoff, window, limit>>
Idx == 1..N
Val(v) == CASE v = "0" -> <<0, 0>> [] v = "1" -> <<16384, 0>> [] v = "i" -> <<0, 16384>>
            [] v = "-2" -> <<-32768, 0>> [] v = "h" -> <<8192, 0>>
(* spread function on 2N+1.. samples: peak 1, neighbours 1/2 and i/4, small floor *)
R == [k \in 1..(4 * N + (N % 2)) |-> LET d == k - (2 * N + 1) IN
        IF d = 0 THEN <<S, 0>> ELSE IF d = 1 THEN <<S \div 2, S \div 4>> ELSE IF d = -1 THEN <<S \div 2, -(S \div 4)>>
        ELSE <<S \div 16, 0>>]
C == 2 * N + 1
NoWin == 2000000
Amp(z) == Mod(z)
Peak(Z) == {i \in Z : \A k \in Z : Amp(resid[k]) <= Amp(resid[i])}
Strongest(Z) == IF Z = {} THEN -1 ELSE Amp(resid[CHOOSE i \in Peak(Z) : TRUE])

Init == /\ dirty \in [Idx -> {Val(v) : v \in Dom}]
        /\ cutoff \in Cutoffs /\ window \in Windows /\ limit \in Limits
        /\ stage = "main" /\ resid = dirty /\ cc = [i \in Idx |-> <<0, 0>>]
        /\ win = {} /\ iter = 0 /\ path = <<>>
Subtract(i) == LET comp == Component(resid, i, Gain) IN
        /\ resid' = AfterResid(resid, R, C, i, comp)
        /\ cc' = AfterCC(cc, i, comp)
        /\ iter' = iter + 1 /\ path' = Append(path, i)
MainStep == /\ stage = "main" /\ iter < limit /\ Strongest(Idx) >= cutoff
            /\ \E i \in Peak(Idx) : Subtract(i)
            /\ UNCHANGED <<cfg, stage, win>>
EnterWindow == /\ stage = "main" /\ (Strongest(Idx) < cutoff \/ iter >= limit)
               /\ stage' = "win" /\ win' = MustWindow(cc, F2)
               /\ UNCHANGED <<cfg, resid, cc, iter, path>>
WindowStep == /\ stage = "win" /\ window # NoWin /\ iter < limit /\ win # {} /\ Strongest(win) >= window
              /\ \E i \in Peak(win) : Subtract(i)
              /\ UNCHANGED <<cfg, stage, win>>
Finish == /\ stage = "win" /\ (window = NoWin \/ iter >= limit \/ win = {} \/ Strongest(win) < window)
          /\ stage' = "done" /\ UNCHANGED <<cfg, resid, cc, win, iter, path>>
Next == MainStep \/ EnterWindow \/ WindowStep \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
LimitKept == iter <= limit /\ Len(path) = iter
Conserved == \A k \in Idx : CNear(dirty[k], CAdd(resid[k], Model(cc, R, C, k)), 3 + 4 * iter)
Untouched == (stage = "done" /\ \A k \in Idx : Amp(dirty[k]) < cutoff) => iter = 0 /\ resid = dirty
CutoffReached == (stage = "done" /\ window = NoWin) => (iter = limit \/ Strongest(Idx) < cutoff)
WindowReached == (stage = "done" /\ window # NoWin /\ iter < limit /\ win # {}) => Strongest(win) < window
(* the second stage never leaves the windows *)
WindowOnly == [][ (stage = "win" /\ iter' = iter + 1) => path'[iter'] \in win ]_vars
(* no stage is ever re-entered *)
Forward == [][ (stage = "win" => stage' \in {"win", "done"}) /\ (stage = "done" => stage' = "done") ]_vars
Terminates == <>(stage = "done")
EmitCase == (Emit /\ stage = "done" /\ iter = limit) => TRUE
EmitInit == (Emit /\ stage = "main" /\ iter = 0 /\ limit = CHOOSE x \in Limits : \A y \in Limits : y <= x) =>
    CSVWrite("%1$s", <<ToJson([dirty |-> dirty, r |-> R, c |-> C, cutoff |-> cutoff, window |-> window, f2 |-> F2, gain |-> Gain])>>, IOEnv.CASES)
=============================================================================
