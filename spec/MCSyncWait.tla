------------------------------ MODULE MCSyncWait ------------------------------
(* every history of a few nested and concurrent waits *)
EXTENDS SyncWait
CONSTANTS NW, NT, Threads
Next ==
  \/ \E i \in Waits, t \in Threads :
       \/ (\A k \in Waits : Active(k) /\ w[k].t = t =>
             \E j \in Tasks : tk[j].w = k /\ tk[j].st = "run" /\ w[k].st \in {"run", "done"}) /\ Call(i, t)
       \/ Connect(i, t) \/ ConnectThrows(i, t, <<9>>) \/ Start(i, t) \/ Destroy(i, t)
       \/ \E c \in {"v", "e", "s", "x"}, v \in {<<>>, <<1>>, <<9>>} : Ret(i, c, v, t)
       \/ \E c \in {"v", "e", "s"} : Complete(i, c, IF c = "s" THEN <<>> ELSE <<1>>, t)
  \/ \E i \in Waits : CopyThrows(i, <<9>>) \/ \E j \in Tasks : TaskStart(i, j)
  \/ \E j \in Tasks, t \in Threads : TaskRun(j, t)
Spec == InitWith(NW, NT) /\ [][Next]_vars /\ WF_vars(Next)
(* every call returns *)
Progress == (\A i \in Waits : w[i].st = "ret") \/ ENABLED Next
Returns == \A i \in 1..NW : (w[i].st = "called") ~> (w[i].st = "ret")
=============================================================================
