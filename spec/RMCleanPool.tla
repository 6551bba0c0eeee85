---------------------------- MODULE RMCleanPool -----------------------------
(* A cube cleaned by a pool: tasks (pixels) are cut into chunks; workers take     *)
(* chunks, each with its own copy of the caller's memory ("private") or the       *)
(* caller's memory itself ("shared"); chunks finish in any order; the caller      *)
(* gathers results by submission index and writes them at the task's position.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NTask, Chunks, Workers, Emit
VARIABLES chunk, private, queue, busy, local, finished, delivered, memory, cube, order
vars == <<chunk, private, queue, busy, local, finished, delivered, memory, cube, order>>
NChunk == ((NTask + chunk - 1) \div chunk)
TasksOf(k) == {t \in 1..NTask : ((t - 1) \div chunk) + 1 = k}
W == 1..Workers
Unset == <<"unset", 0>>
Alone(t) == <<"clean", t>>          \* result of cleaning the task's spectrum alone
Init == /\ chunk \in Chunks /\ private \in BOOLEAN
        /\ queue = 1 /\ busy = [w \in W |-> 0]
        /\ local = [w \in W |-> {}]         \* side effects left in a worker's private memory
        /\ finished = {} /\ delivered = [k \in {} |-> {}]
        /\ memory = {}                      \* side effects visible to the caller
        /\ cube = [t \in 1..NTask |-> Unset] /\ order = <<>>
Take(w) == /\ busy[w] = 0 /\ queue <= NChunk
           /\ busy' = [busy EXCEPT ![w] = queue] /\ queue' = queue + 1
           /\ UNCHANGED <<chunk, private, local, finished, delivered, memory, cube, order>>
Done(w) == /\ busy[w] # 0
           /\ LET k == busy[w] IN
              /\ finished' = finished \cup {k}
              /\ delivered' = delivered @@ (k :> [t \in TasksOf(k) |-> Alone(t)])
              /\ IF private THEN local' = [local EXCEPT ![w] = @ \cup TasksOf(k)] /\ UNCHANGED memory
                            ELSE memory' = memory \cup TasksOf(k) /\ UNCHANGED local
              /\ order' = Append(order, k)
           /\ busy' = [busy EXCEPT ![w] = 0]
           /\ UNCHANGED <<chunk, private, queue, cube>>
Gather == /\ Cardinality(finished) = NChunk /\ cube[1] = Unset
          /\ cube' = [t \in 1..NTask |-> delivered[((t - 1) \div chunk) + 1][t]]
          /\ UNCHANGED <<chunk, private, queue, busy, local, finished, delivered, memory, order>>
Next == (\E w \in W : Take(w) \/ Done(w)) \/ Gather
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
(* results depend on nothing but the task *)
PerTask == \A t \in 1..NTask : cube[t] # Unset => cube[t] = Alone(t)
OncePerTask == \A i, j \in DOMAIN order : i # j => TasksOf(order[i]) \cap TasksOf(order[j]) = {}
(* with private memory nothing but the delivered result reaches the caller *)
NoSideChannel == private => memory = {}
Finishes == <>(cube[1] # Unset)
EmitCase == (Emit /\ cube[1] # Unset) =>
   CSVWrite("%1$s", <<ToJson([chunk |-> chunk, private |-> private, order |-> order])>>, IOEnv.CASES)
=============================================================================
