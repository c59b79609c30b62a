---------------------------- MODULE MCSeqSenders ----------------------------
EXTENDS SeqSenders
CONSTANTS Trees, Iavs, Throws
I(c) == [c |-> c, w |-> 0, cx |-> 0]
IX(c) == [c |-> c, w |-> 0, cx |-> 1]
\* q: how many items at a time; r: a source fails at its end; m = 8: subscribing throws
T(k, up, ch, p, q, r, m, it) ==
  [k |-> k, up |-> up, ch |-> ch, p |-> p, q |-> q, r |-> r, m |-> m, sh |-> 0, it |-> it]
Src(up, q, r, it) == T("src", up, <<>>, Len(it), q, r, 0, it)
Op(k, up, ch) == T(k, up, ch, 0, 0, 0, 0, <<>>)
Tree(t) ==
  CASE t = "te" -> <<Op("te", 0, <<2>>), Src(1, 2, 0, <<I("v"), I("e")>>)>>
    [] t = "teiter" -> <<T("te", 0, <<2>>, 0, 1, 0, 0, <<>>), T("iter", 1, <<>>, 2, 0, 0, 0, <<>>)>>
    [] t = "any" -> <<Op("any", 0, <<2>>), Op("te", 1, <<3>>), Src(2, 1, 1, <<I("v"), I("s")>>)>>
    [] t = "mrg" -> <<Op("mrg", 0, <<2, 3>>), Src(1, 1, 0, <<I("v")>>), Src(1, 1, 1, <<I("e")>>)>>
    [] t = "mrgone" -> <<Op("mrg", 0, <<2, 3>>), T("one", 1, <<>>, 1, 0, 0, 0, <<I("v")>>), Op("empty", 1, <<>>)>>
    [] t = "mrgx" -> <<Op("mrg", 0, <<2, 3>>), T("one", 1, <<>>, 1, 0, 0, 0, <<I("v")>>), T("src", 1, <<>>, 1, 1, 0, 8, <<I("v")>>)>>
    [] t = "me" -> <<Op("me", 0, <<2>>), T("osrc", 1, <<3>>, 1, 1, 0, 0, <<I("v")>>), Src(2, 1, 0, <<I("v"), I("e")>>)>>
    [] t = "me2" -> <<Op("me", 0, <<2>>), T("osrc", 1, <<3, 4>>, 2, 2, 0, 0, <<I("v"), I("v")>>),
                      Src(2, 1, 0, <<I("e")>>), Src(2, 1, 1, <<I("v")>>)>>
    [] t = "meo" -> <<Op("me", 0, <<2>>), T("osrc", 1, <<3, 4>>, 2, 1, 1, 0, <<I("v"), I("x")>>),
                      Src(2, 1, 0, <<I("v")>>), Src(2, 1, 0, <<>>)>>
    [] t = "mex" -> <<Op("me", 0, <<2>>), T("osrc", 1, <<3>>, 1, 1, 0, 0, <<I("v")>>),
                      T("src", 2, <<>>, 0, 1, 0, 8, <<>>)>>
    [] t = "mete" -> <<Op("te", 0, <<2>>), Op("me", 1, <<3>>), T("osrc", 2, <<4>>, 1, 1, 0, 0, <<I("v")>>),
                       Op("mrg", 3, <<5, 6>>), Src(4, 1, 0, <<I("v")>>), Src(4, 1, 0, <<I("e")>>)>>

MCInit == /\ \E t \in Trees : nodes = Tree(t)
          /\ iav \in Iavs
          /\ Init

Fs == UNION {cand[n] : n \in 0..NN} \cup {res[n] : n \in Nds}
Busy(n) == Cardinality({i \in ItemsOf(n) : ~ItemDone(It(n, i))})
SrcBroke(n) == \E i \in ItemsOf(n) : It(n, i).nd = "s" \/ Threw(n, i)
Env(n) ==   \* a source: a window of items, in order, until it is broken
  K(n) \in {"src", "osrc"} =>
    Len(its[n]) < Node(n).p /\ Busy(n) < Node(n).q /\ ~SrcBroke(n)
Ends(n) ==
  CASE K(n) \in {"src", "osrc"} ->
         (IF (Len(its[n]) = Node(n).p \/ SrcBroke(n)) /\ Busy(n) = 0
          THEN {IF \E i \in ItemsOf(n) : Threw(n, i) THEN R("x", <<5000>>)
                ELSE IF Node(n).r = 1 THEN R("e", <<700 + n>>)
                ELSE R("v", <<>>)} ELSE {})
         \cup (IF RTok(n) THEN {R("s", <<>>)} ELSE {})
    [] OTHER -> {R("v", <<>>), R("s", <<>>), R("x", <<5000>>)} \cup {R(x.c, x.v) : x \in Fs}
                \cup {R("x", x.v) : x \in Fs}
ItemEnds(n, i) ==
  LET s == It(n, i).src IN
  {R("s", <<>>)} \cup
  (IF s = <<n, 0>> THEN
     {R("v", <<>>), R("v", <<n * 100 + i>>), R("v", <<n * 100 + Seen(n) + 1>>), R("e", <<500 + n * 10 + i>>), R("x", <<6000 + n * 10 + i>>)}
   ELSE IF s = <<0, 0>> THEN {R(x.c, x.v) : x \in Fs}
   ELSE {It(s[1], s[2]).ic, Maps(n, It(s[1], s[2]).ic.c, It(s[1], s[2]).ic.v)})

Step ==
  \/ \E n \in Nds :
     \/ Sub(n) \/ SubX(n) \/ Sta(n)
     \/ \E i \in 1..(Len(its[n]) + 1) :
        \/ Env(n) /\ Nx(n, i)
        \/ (n = 1 => i \in Throws) /\ NxX(n, i)
        \/ IcX(n, i)
        \/ Has(n, i) /\ (n = 1 => It(n, i).icx) /\ NcX(n, i)
        \/ NS(n, i)
        \/ (n = 1 => ~iav) /\ IS(n, i)
        \/ n = 1 /\ iav /\ IS(n, i)
        \/ Has(n, i) /\ It(n, i).is /\ \E r \in ItemEnds(n, i) : r # None /\ IC(n, i, r.c, r.v)
        \/ \E s \in {"v", "s"} :
             (n = 1 /\ Has(n, i) => It(n, i).is /\ s = (IF It(n, i).ic.c = "v" THEN "v" ELSE "s")) /\ ND(n, i, s)
     \/ \E r \in Ends(n) : r # None /\ Cmp(n, r.c, r.v)
  \/ \E r \in {R(x.c, x.v) : x \in Fs} : r # None /\ Fin(r.c, r.v)
  \/ \E n \in Nds : Ced(n)
  \/ StopB \/ StopE
  \/ End
Next == Step /\ UNCHANGED <<nodes, iav>>
MCSpec == MCInit /\ [][Next]_<<vars>>
(* A failure below a merge_each or a transform_each is not lost: either an item of the root
   or the root itself tells the consumer about it (or it had stopped). *)
Failed == \/ \E n \in Nds : res[n].c \in {"e", "x"}
          \/ \E n \in Nds : \E i \in ItemsOf(n) : It(n, i).ic.c \in {"e", "x"} 
Told == \/ res[1].c \in {"e", "x", "s"}
        \/ \E i \in ItemsOf(1) : It(1, i).ic.c \in {"e", "x", "s"} \/ Threw(1, i) \/ It(1, i).nx = "dropped"
NotLost == st[1] = "done" /\ Failed /\ stp = "no" => Told
(* Without a failure, a stop request or a consumer who stops, a sequence ends well. *)
Calm == /\ stp = "no" /\ ~Failed
        /\ \A n \in Nds : st[n] # "subx" /\ \A i \in ItemsOf(n) : It(n, i).nd # "s" /\ ~Threw(n, i)
EndsWell == st[1] = "done" /\ Calm => res[1].c = "v"
=============================================================================
