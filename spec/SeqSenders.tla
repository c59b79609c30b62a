------------------------------ MODULE SeqSenders ------------------------------
(* Sequence senders (exec/sequence_senders.hpp, exec/sequence/ *.hpp).

   An expression is a tree of nodes.  A node is subscribed and started by its parent
   (the root: by the consumer), hands a sequence of items to it (set_next) and
   completes after every one of them.  For an item of a node
     nx   set_next was called with the item's sender, nxx: it threw
          ("dropped": the sequence could not be subscribed)
     ncx  connecting the sender which set_next returned threw
     ns   that sender was started by the node, nd: it completed ("v": go on, "s": stop)
     icx  connecting the item threw
     is   the consumer started the item, ic: the item completed
   What a node may do is defined by its kind:
     src, osrc   a source of values / of sequences (the environment)
     one         a plain sender as a sequence of one item
     iter        exec::iterate           empty  exec::empty_sequence
     te          exec::transform_each with then(append the node's number)
     any         exec::any_sequence_sender
     mrg         exec::merge             me     exec::merge_each                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES
  nodes,  \* the expression: records [k, ch, p, q, r, m, sh, up, it]; never changes
  iav,    \* the root is consumed by ignore_all_values; never changes
  st,     \* node -> "no", "sub", "subx", "run", "done"
  its,    \* node -> sequence of its items
  res,    \* node -> its completion
  cand,   \* node -> what a merge_each, a branch of a merge or (0) ignore_all_values may end with
  setl,   \* node -> one of them has been settled: later ones are not considered
  ced,    \* nodes whose completion call has returned
  stp,    \* "no", "req" (being requested), "yes": the stop request of the consumer
  look,   \* node -> "no": not looking at the stop token; otherwise the value of stp before it
  fin     \* what ignore_all_values completed with
vars == <<nodes, iav, st, its, res, cand, setl, ced, stp, look, fin>>

Node(n) == nodes[n]
NN == Len(nodes)
Nds == 1..NN
K(n) == Node(n).k
Up(n) == Node(n).up
Kids(n) == {Node(n).ch[i] : i \in 1..Len(Node(n).ch)}
None == [c |-> "", v |-> <<>>]
R(c, v) == [c |-> c, v |-> v]
Pass(n) == K(n) \in {"te", "any", "mrg"}

(* An item.  src: the item of a child it stands for, <<0, 0>> if there is none. *)
NewItem(src) == [src |-> src, nx |-> "in", ns |-> FALSE, nd |-> "", is |-> FALSE,
                 icx |-> FALSE, ic |-> None]

Init ==
  /\ st = [n \in Nds |-> "no"]
  /\ its = [n \in Nds |-> <<>>]
  /\ res = [n \in Nds |-> None]
  /\ cand = [n \in 0..NN |-> {}]
  /\ setl = [n \in 0..NN |-> FALSE]
  /\ ced = {}
  /\ stp = "no"
  /\ look = [n \in Nds |-> "no"]
  /\ fin = None

ItemsOf(n) == 1..Len(its[n])
It(n, i) == its[n][i]
Has(n, i) == n \in Nds /\ i \in ItemsOf(n)
SetIt(n, i, f) == its' = [its EXCEPT ![n][i] = f]

(* The items which stand for item i of node n, above it. *)
Above(n, i) == IF Up(n) = 0 THEN {}
               ELSE LET p == IF K(Up(n)) = "osrc" THEN Up(Up(n)) ELSE Up(n)
                    IN {<<p, j>> : j \in {j \in ItemsOf(p) : It(p, j).src = <<n, i>>}}
Dest(n) == IF K(Up(n)) = "osrc" THEN Up(Up(n)) ELSE Up(n)

ItemDone(x) == x.nd # "" \/ x.nx \in {"thrown", "ncx", "dropped"}
AllDone(n) == \A i \in ItemsOf(n) : ItemDone(It(n, i)) /\ (It(n, i).is => It(n, i).ic # None)

(* Whether a stop request may be visible through the token which n gets from its receiver
   (RTok), resp. which n hands to its children (CTok). *)
Fails(n) == {x \in cand[n] : x.k # "brk"}
Brks(n) == {x \in cand[n] : x.k = "brk"}
RECURSIVE RT(_, _)
RT(n, b) ==
  /\ b => Node(n).sh = 0
  /\ IF Up(n) = 0 THEN stp # "no"
     ELSE IF K(Up(n)) = "osrc" THEN RT(Up(Up(n)), b) \/ Fails(Up(Up(n))) # {} \/ res[Up(n)].c = "s"
     ELSE \/ RT(Up(n), b)
          \/ K(Up(n)) = "me" /\ (Fails(Up(n)) # {} \/ res[n].c \in {"e", "x", "s"})
          \/ K(Up(n)) = "mrg" /\ \E c \in Kids(Up(n)) : Brks(c) # {}
RTok(n) == RT(n, TRUE)
(* The token of an item of n: those who handle the item may add theirs to that of the sequence. *)
ITok(n) == RT(n, FALSE)
-------------------------------------------------------------------------------
(* Subscribing and starting *)
OpenOuter(n) ==   \* n is a nested sequence of a merge_each: its item has just been delivered
  LET o == Up(n) IN
  \E i \in ItemsOf(o) : Node(o).ch[i] = n /\ It(o, i).ic.c = "v" /\ It(o, i).nd = ""

Sub(n) ==
  /\ st[n] = "no"
  /\ IF Up(n) = 0 THEN TRUE
     ELSE IF K(Up(n)) = "osrc" THEN OpenOuter(n)
     ELSE st[Up(n)] = "sub"
  /\ st' = [st EXCEPT ![n] = "sub"]
  /\ UNCHANGED <<its, res, cand, setl, ced, stp, look, fin>>

RECURSIVE Below(_)
Below(n) == {n} \cup UNION {Below(c) : c \in Kids(n)}
RECURSIVE Base(_, _)
Base(n, i) == LET s == It(n, i).src IN IF s = <<n, 0>> THEN n ELSE IF s = <<0, 0>> THEN 0 ELSE Base(s[1], s[2])
(* What plain senders have handed over is dropped when their sequence cannot be subscribed. *)
Dropped(n) == [m \in Nds |-> [i \in ItemsOf(m) |->
                 IF Base(m, i) \in Below(n) /\ It(m, i).nx = "in"
                 THEN [It(m, i) EXCEPT !.nx = "dropped"] ELSE It(m, i)]]

NoSub(n) == K(n) \in {"src", "osrc"} /\ (Node(n).m \div 8) % 2 = 1   \* subscribing it throws
Threw(n, i) == It(n, i).nx \in {"thrown", "ncx"}
SubX(n) ==
  /\ st[n] = "sub"
  /\ IF Up(n) = 0 THEN TRUE ELSE K(Up(n)) = "osrc" \/ st[Up(n)] = "sub"
  /\ CASE K(n) \in {"src", "osrc"} -> NoSub(n)
       [] K(n) = "one" -> its[n] # <<>> /\ Threw(n, 1)
       [] OTHER -> \E c \in Kids(n) : st[c] = "subx"
  /\ st' = [st EXCEPT ![n] = "subx"]
  \* a nested sequence whose subscription failed fails the merge_each
  /\ IF Up(n) # 0 /\ K(Up(n)) = "osrc" /\ ~setl[Dest(n)]
     THEN cand' = [cand EXCEPT ![Dest(n)] = @ \cup {[k |-> "item", c |-> "x", v |-> <<>>]}]
     ELSE UNCHANGED cand
  /\ its' = Dropped(n)
  /\ UNCHANGED <<res, setl, ced, stp, look, fin>>

RECURSIVE Taken(_, _)   \* set_next is over, all the way up, and did not throw
Taken(n, i) == /\ ~Threw(n, i)
               /\ Up(n) = 0 \/ K(n) = "osrc" \/ \E a \in Above(n, i) : Taken(a[1], a[2])
RECURSIVE Ready(_)   \* everything is subscribed before anything is started
Ready(n) == /\ st[n] = "sub" /\ ~NoSub(n)
            /\ K(n) = "one" => its[n] # <<>> /\ Taken(n, 1)
            /\ K(n) # "osrc" => \A c \in Kids(n) : Ready(c)
Sta(n) ==
  /\ Ready(n)
  /\ IF Up(n) = 0 THEN TRUE
     ELSE IF K(Up(n)) = "osrc" THEN OpenOuter(n)
     ELSE st[Up(n)] = "run"
  /\ st' = [st EXCEPT ![n] = "run"]
  /\ UNCHANGED <<its, res, cand, setl, ced, stp, look, fin>>

-------------------------------------------------------------------------------
(* Items *)
Live(n, i) == Has(n, i) /\ It(n, i).nx = "in"

(* the items of the children of n which may come out as the next item of n *)
Sources(n) ==
  LET kids == IF K(n) = "me"
              THEN Kids(Node(n).ch[1])
              ELSE Kids(n)
      all == UNION {{<<c, j>> : j \in ItemsOf(c)} : c \in kids}
  IN {s \in all : Live(s[1], s[2]) /\ ~It(s[1], s[2]).ns /\ Above(s[1], s[2]) = {}}

(* everything below a merge_each is over and one of its items failed: the failure is
   delivered as a last item *)
MeOver(n) ==
  LET o == Node(n).ch[1] IN
  /\ st[o] = "done" /\ AllDone(n)
  /\ \A c \in Kids(o) : st[c] \in {"no", "subx", "done"}
ItemCands(n) == {x \in cand[n] : x.k = "item"}
LastItem(n) == \E i \in ItemsOf(n) : It(n, i).src = <<0, 0>>

\* iterate goes on to the next element when an item has delivered one
Seen(n) == Cardinality({i \in ItemsOf(n) : It(n, i).ic.c = "v"})

Nx(n, i) ==
  /\ i = Len(its[n]) + 1
  \* a plain sender hands itself over when it is subscribed, and so do those above it
  /\ st[n] = "run" \/ (st[n] = "sub" /\ (K(n) = "one" \/ Pass(n) \/ K(n) = "me"))
  /\ K(n) = "one" => st[n] = "sub"
  /\ \E s \in CASE K(n) \in {"src", "osrc"} -> {<<n, 0>>}
                [] K(n) = "one" -> IF i = 1 THEN {<<n, 0>>} ELSE {}
                [] K(n) = "iter" ->
                     IF Seen(n) < Node(n).p /\ (i > 1 => It(n, i - 1).nd = "v") THEN {<<n, 0>>} ELSE {}
                [] K(n) = "empty" -> {}
                [] K(n) = "me" ->
                     Sources(n) \cup (IF MeOver(n) /\ ItemCands(n) # {} /\ ~LastItem(n)
                                      THEN {<<0, 0>>} ELSE {})
                [] OTHER -> Sources(n) :
       its' = [its EXCEPT ![n] = Append(@, NewItem(s))]
  /\ UNCHANGED <<st, res, cand, setl, ced, stp, look, fin>>

(* the source has connected the next sender and starts it *)
RECURSIVE Subscribed(_)
Subscribed(n) == IF Up(n) = 0 THEN n ELSE IF K(Up(n)) = "osrc" THEN n ELSE Subscribed(Up(n))
RECURSIVE Begun(_, _)
Begun(n, i) == \/ It(n, i).ns
               \/ LET b == Base(n, i) IN IF b = 0 THEN FALSE ELSE K(b) = "one" /\ st[Subscribed(b)] # "sub"
               \/ LET s == It(n, i).src IN s \notin {<<n, 0>>, <<0, 0>>} /\ Begun(s[1], s[2])

(* set_next may throw if the consumer's does *)
NxX(n, i) ==
  /\ Live(n, i) /\ ~Begun(n, i)
  /\ \/ Up(n) = 0
     \* the adaptor of a transform_each throws once, in its r-th call
     \/ (Up(n) # 0 /\ K(n) # "osrc" /\ K(Up(n)) = "te" /\ Node(Up(n)).r > 0
         /\ Len(its[n]) >= Node(Up(n)).r /\ Above(n, i) = {}
         /\ \A j \in ItemsOf(n) : It(n, j).nx = "thrown" => Above(n, j) # {})
     \/ \E a \in Above(n, i) : It(a[1], a[2]).nx = "thrown"
  /\ SetIt(n, i, [It(n, i) EXCEPT !.nx = "thrown"])
  /\ UNCHANGED <<st, res, cand, setl, ced, stp, look, fin>>

IcX(n, i) ==
  /\ Live(n, i) /\ ~It(n, i).is /\ ~It(n, i).icx
  /\ LET s == It(n, i).src IN
     CASE s = <<n, 0>> -> Node(n).k \in {"src", "osrc", "one"} /\ Node(n).it[i].cx = 1
       [] s = <<0, 0>> -> FALSE
       [] OTHER -> It(s[1], s[2]).icx
  /\ SetIt(n, i, [It(n, i) EXCEPT !.icx = TRUE])
  /\ UNCHANGED <<st, res, cand, setl, ced, stp, look, fin>>

NcX(n, i) ==
  /\ Live(n, i) /\ ~Begun(n, i)
  /\ \/ Up(n) = 0
     \/ K(n) = "osrc" /\ It(n, i).icx
     \/ \E a \in Above(n, i) : It(a[1], a[2]).nx = "ncx"
  /\ SetIt(n, i, [It(n, i) EXCEPT !.nx = "ncx"])
  /\ UNCHANGED <<st, res, cand, setl, ced, stp, look, fin>>

NS(n, i) ==
  /\ Live(n, i) /\ ~It(n, i).ns /\ st[n] = "run"
  /\ LET s == It(n, i).src IN s \notin {<<n, 0>>, <<0, 0>>} => It(s[1], s[2]).ns
  \* a set_next or a connect which threw above must have been let out
  /\ Taken(n, i)
  /\ SetIt(n, i, [It(n, i) EXCEPT !.ns = TRUE])
  /\ UNCHANGED <<st, res, cand, setl, ced, stp, look, fin>>

IS(n, i) ==
  /\ Live(n, i) /\ It(n, i).ns /\ ~It(n, i).is /\ ~It(n, i).icx /\ It(n, i).nd = ""
  /\ Up(n) = 0 \/ K(n) = "osrc" \/ \E a \in Above(n, i) : It(a[1], a[2]).is
  /\ SetIt(n, i, [It(n, i) EXCEPT !.is = TRUE])
  /\ UNCHANGED <<st, res, cand, setl, ced, stp, look, fin>>

Maps(n, c, v) ==   \* what te makes of the completion <<c, v>> of an item
  IF c # "v" THEN R(c, v)
  ELSE IF Node(n).q > 0 /\ v[1] % 100 = Node(n).q THEN R("x", <<2000 + n>>)
  ELSE R("v", Append(v, n))

(* the item's value: from the source, or what the node makes of the child's *)
ICOk(n, i, c, v) ==
  LET s == It(n, i).src IN
  IF s = <<n, 0>>
  THEN CASE K(n) = "iter" -> \/ c = "v" /\ v = <<n * 100 + Seen(n) + 1>>
                             \/ c = "s" /\ ITok(n)
         [] OTHER -> LET b == Node(n).it[i] IN
                     IF b.w = 9 THEN c = "s"
                     ELSE /\ c = b.c
                          /\ v = CASE c = "v" -> IF K(n) = "osrc" THEN <<>> ELSE <<n * 100 + i>>
                                   [] c = "e" -> <<500 + n * 10 + i>>
                                   [] c = "x" -> <<6000 + n * 10 + i>>
                                   [] OTHER -> <<>>
  ELSE IF s = <<0, 0>>
  THEN \E x \in ItemCands(n) : x.c = c /\ (x.v # <<>> => x.v = v)
  ELSE LET x == It(s[1], s[2]).ic IN
       /\ x # None
       /\ CASE K(n) = "te" -> Maps(n, x.c, x.v) = R(c, v)
            [] K(n) = "me" -> R(c, v) = IF x.c \in {"e", "x"} THEN R("s", <<>>) ELSE x
            [] OTHER -> R(c, v) = x

IC(n, i, c, v) ==
  /\ Has(n, i) /\ It(n, i).is /\ It(n, i).ic = None
  /\ ICOk(n, i, c, v)
  /\ SetIt(n, i, [It(n, i) EXCEPT !.ic = R(c, v)])
  /\ LET d == IF Up(n) = 0 THEN 0
              ELSE IF K(n) = "osrc" THEN Up(n)
              ELSE IF K(Up(n)) = "osrc" THEN Dest(n) ELSE 0
         \* ignore_all_values takes the first item which fails or stops
         c0 == IF n = 1 /\ iav /\ c \in {"e", "x", "s"} /\ ~setl[0]
               THEN [cand EXCEPT ![0] = @ \cup {[k |-> "iav", c |-> c, v |-> v]}]
               ELSE cand
     IN  \* an item of a nested sequence, or of the sequence of sequences, fails
        IF c \in {"e", "x"} /\ d # 0
        THEN /\ cand' = IF setl[d] THEN cand
                        ELSE [cand EXCEPT ![d] = @ \cup {[k |-> "item", c |-> c, v |-> v]}]
             /\ UNCHANGED setl
        ELSE IF K(n) = "me" /\ It(n, i).src # <<0, 0>> /\ c = "s"
                /\ It(It(n, i).src[1], It(n, i).src[2]).ic.c \in {"e", "x"}
        THEN setl' = [setl EXCEPT ![n] = TRUE] /\ cand' = c0
        ELSE cand' = c0 /\ UNCHANGED setl
  /\ UNCHANGED <<st, res, ced, stp, look, fin>>

(* how a nested sequence ended *)
NestedRes(o, i) ==
  LET c == Node(o).ch[i] IN
  IF st[c] = "subx" THEN "s" ELSE IF res[c].c \in {"e", "x"} THEN "s" ELSE "v"

ND(n, i, s) ==
  /\ Live(n, i) /\ It(n, i).ns /\ It(n, i).nd = ""
  /\ It(n, i).is => It(n, i).ic # None
  /\ IF Up(n) = 0
     THEN iav => s = (IF It(n, i).ic.c = "v" THEN "v" ELSE "s")
     ELSE IF K(n) = "osrc"
     THEN CASE It(n, i).ic.c = "v" -> /\ st[Node(n).ch[i]] \in {"subx", "done"}
                                      /\ s = NestedRes(n, i)
            [] It(n, i).ic.c = "s" -> s = "v"
            [] It(n, i).ic.c \in {"e", "x"} -> s = "s"
            [] OTHER -> FALSE
     ELSE \E a \in Above(n, i) : It(a[1], a[2]).nd = s
  /\ SetIt(n, i, [It(n, i) EXCEPT !.nd = s])
  /\ IF K(n) = "osrc" /\ s = "s" THEN setl' = [setl EXCEPT ![Up(n)] = TRUE]
     ELSE IF n = 1 /\ iav /\ s = "s" THEN setl' = [setl EXCEPT ![0] = TRUE]
     ELSE UNCHANGED setl
  \* in a merge, an item after which its consumer stopped makes its sequence a stopped one
  /\ IF Up(n) # 0 /\ K(Up(n)) = "mrg" /\ s = "s"
     THEN cand' = [cand EXCEPT ![n] = @ \cup {[k |-> "brk", c |-> "s", v |-> <<>>]}]
     ELSE UNCHANGED cand
  /\ UNCHANGED <<st, res, ced, stp, look, fin>>

-------------------------------------------------------------------------------
(* Completion of a node *)
BranchStopped(c) == \E i \in ItemsOf(c) : It(c, i).nd = "s"
BranchRes(c) == (IF BranchStopped(c) THEN {R("s", <<>>)} ELSE {})
                \cup (IF BranchStopped(c) /\ res[c].c \notin {"e", "x"} THEN {} ELSE {res[c]})
Started(n) == st[n] \in {"run", "done"}

CmpOk(n, c, v) ==
  CASE K(n) \in {"src", "osrc"} -> TRUE
    [] K(n) = "empty" -> c = "v"
    [] K(n) = "one" ->
         /\ its[n] # <<>> /\ ItemDone(It(n, 1))
         /\ c \in (IF It(n, 1).nd = "v" THEN {"v"} ELSE IF RTok(n) THEN {"s", "v"} ELSE {"v"})
    [] K(n) = "iter" ->
         IF \E i \in ItemsOf(n) : Threw(n, i) THEN c = "x"
         ELSE IF \E i \in ItemsOf(n) : It(n, i).nd = "s"
         THEN c \in (IF RTok(n) THEN {"s", "v"} ELSE {"v"})
         ELSE c = "v" /\ Seen(n) = Node(n).p
    [] K(n) \in {"te", "any"} ->
         LET x == Node(n).ch[1] IN st[x] = "done" /\ R(c, v) = res[x]
    [] K(n) = "mrg" ->
         IF \A x \in Kids(n) : st[x] = "sub"
         THEN c = "s" /\ RTok(n)
         ELSE /\ \A x \in Kids(n) : st[x] = "done"
              /\ LET rs == UNION {BranchRes(x) : x \in Kids(n)}
                     must == {x \in Kids(n) : \A r \in BranchRes(x) : r.c \in {"e", "x"}}
                 IN IF c \in {"e", "x"} THEN R(c, v) \in rs
                    ELSE /\ must = {}
                         /\ c \in IF \E r \in rs : r.c = "s" THEN {"s"}
                               ELSE IF RTok(n) THEN {"s", "v"} ELSE {"v"}
    [] K(n) = "me" ->
         LET o == Node(n).ch[1] IN
         IF st[o] = "sub"
         THEN c = "s" /\ RTok(n)
         ELSE /\ MeOver(n)
              /\ LET outer == {x \in cand[n] : x.k = "outer"}
                     last == {i \in ItemsOf(n) : It(n, i).src = <<0, 0>>}
                 IN IF last # {}
                    THEN \A i \in last :
                           IF Threw(n, i) THEN c = "x"
                           ELSE c \in (IF RTok(n) THEN {"s", "v"} ELSE {"v"})
                    ELSE \/ \E x \in outer : R(c, v) = R("x", x.v)
                         \/ Fails(n) = {} /\ c = IF res[o].c = "s" THEN "s" ELSE "v"

Cmp(n, c, v) ==
  /\ st[n] = "run"
  /\ AllDone(n)
  /\ c \in {"v", "s"} => v = <<>>
  /\ CmpOk(n, c, v)
  /\ st' = [st EXCEPT ![n] = "done"]
  /\ res' = [res EXCEPT ![n] = R(c, v)]
  /\ IF Up(n) # 0 /\ c \in {"e", "x"} /\ K(Up(n)) = "osrc" /\ ~setl[Dest(n)]
     THEN cand' = [cand EXCEPT ![Dest(n)] = @ \cup {[k |-> "item", c |-> c, v |-> v]}]
     ELSE IF K(n) = "osrc" /\ c \in {"e", "x"} /\ ~setl[Up(n)]
     THEN cand' = [cand EXCEPT ![Up(n)] = @ \cup {[k |-> "outer", c |-> "x",
                                                      v |-> IF c = "e" THEN <<50000 + v[1]>> ELSE v]}]
     ELSE IF Up(n) # 0 /\ K(Up(n)) = "mrg" /\ c # "v"
     THEN cand' = [cand EXCEPT ![n] = @ \cup {[k |-> "brk", c |-> c, v |-> v]}]
     ELSE UNCHANGED cand
  /\ UNCHANGED <<its, setl, ced, stp, look, fin>>

(* ignore_all_values: the first failure or stop among the items, else the sequence's end *)
Fin(c, v) ==
  /\ iav /\ fin = None /\ st[1] = "done"
  /\ \/ \E x \in cand[0] : R(c, v) = R(x.c, x.v)
     \/ R(c, v) = res[1] /\ (cand[0] = {} \/ c \in {"e", "x"})
  /\ fin' = R(c, v)
  /\ UNCHANGED <<st, its, res, cand, setl, ced, stp, look>>

-------------------------------------------------------------------------------
(* The consumer's stop request, and a source which looks whether it is to stop *)
StopB == stp = "no" /\ stp' = "req" /\ UNCHANGED <<st, its, res, cand, setl, ced, look, fin>>
StopE == stp = "req" /\ stp' = "yes" /\ UNCHANGED <<st, its, res, cand, setl, ced, look, fin>>
\* a failure which has been taken note of must be seen, too
\* (unless another one, or the request to stop, is just about to stop the others)
Alone(n) == /\ stp # "req"
            /\ IF K(n) = "me" THEN Cardinality(Fails(n)) = 1 /\ \A x \in Fails(n) : x.v # <<>>
               ELSE \A c \in Kids(n) : st[c] = "done" => c \in ced
RECURSIVE Must(_)
Must(n) ==
  /\ Node(n).sh = 0
  /\ IF Up(n) = 0 THEN stp = "yes"
     ELSE IF K(Up(n)) = "osrc" THEN Must(Up(Up(n))) \/ (setl[Up(Up(n))] /\ Alone(Up(Up(n))))
     ELSE \/ Must(Up(n))
          \/ K(Up(n)) = "me" /\ setl[Up(n)] /\ Alone(Up(n))
          \/ K(Up(n)) = "mrg" /\ Alone(Up(n)) /\ \E c \in Kids(Up(n)) : c \in ced /\ \A x \in BranchRes(c) : x.c # "v"
Look(n) == /\ look' = [look EXCEPT ![n] = IF Must(n) THEN "yes" ELSE "req"]
           /\ UNCHANGED <<st, its, res, cand, setl, ced, stp, fin>>
Saw(n, y) ==
  /\ look[n] # "no"
  /\ y => RTok(n)
  /\ look[n] = "yes" => y
  /\ look' = [look EXCEPT ![n] = "no"]
  /\ UNCHANGED <<st, its, res, cand, setl, ced, stp, fin>>
\* the call with which n completed has returned
Ced(n) == st[n] = "done" /\ n \notin ced /\ ced' = ced \cup {n}
          /\ UNCHANGED <<st, its, res, cand, setl, stp, look, fin>>

Over == IF st[1] = "subx" THEN TRUE
        ELSE st[1] = "done" /\ (iav => fin # None)
End == Over /\ UNCHANGED <<st, its, res, cand, setl, ced, stp, look, fin>>
-------------------------------------------------------------------------------
(* Properties *)
\* a completed sequence has no item under way, and none that was started was forgotten
DoneMeansOver == \A n \in Nds : st[n] = "done" => AllDone(n)
\* what is below a completed sequence is over, too
DoneMeansBelowOver ==
  \A n \in Nds : st[n] = "done" /\ Pass(n) => \A c \in Kids(n) : st[c] \in {"sub", "done"}
\* every item stands for one item of a child, and the other way round
OneToOne == \A n \in Nds : \A i \in ItemsOf(n) : Cardinality(Above(n, i)) <= 1
=============================================================================
