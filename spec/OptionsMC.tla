---- MODULE OptionsMC ----
(* Two options objects under all sequences of operations up to a depth: options objects match  *)
(* their types, other objects stay as they are, refusals change nothing, the order of a        *)
(* dictionary does not matter; wrong reports are rejected.                                     *)
EXTENDS Options
CONSTANTS Depth, Cls
VARIABLES st, n
Ids == {"a", "b"}
PairedNames(c) == {x \in DOMAIN Table[c] : Table[c][x].k = "paired"}
Vals(c, x) == LET r == Table[c][x] IN
    CASE r.k = "paired" -> {<<"str", v>> : v \in DOMAIN r.map} \cup {<<"str", "nonsense">>}
      [] r.k = "bool" -> {<<"bool", "True">>, <<"float", "1.0">>}
      [] r.k = "nnint" -> {<<"int", "2">>, <<"int", "-1">>, <<"none", "None">>}
      [] r.k \in {"const", "coef", "sexpr"} -> {<<"const", "2.0">>, <<"float", "2.0">>}
      [] r.k = "bfloat" -> {<<"float", "0.75">>, <<"float", "2.0">>}
      [] OTHER -> {}
NodePaths(o) == {<<>>} \cup {<<x>> : x \in {y \in Names(o) : Table[o.c][y].k \in {"slave", "inst"}}}
Sets(i) == LET o == st.ob[i].o IN
    UNION {UNION {{[ev |-> "set", id |-> i, path |-> p \o <<x>>, t |-> tv[1], v |-> tv[2]] : tv \in Vals(At(o, p).c, x)}
                  : x \in Names(At(o, p))} : p \in NodePaths(o)}
    \cup {[ev |-> "set", id |-> i, path |-> p \o <<"unknown">>, t |-> "float", v |-> "1.0"] : p \in NodePaths(o)}
Dicts(i) == LET c == st.ob[i].o.c IN
    UNION {UNION {{[ev |-> "update", id |-> i, entries |-> en] :
             en \in {<<<<x, "str", v>>, <<Table[c][x].to, "obj", Table[c][x].map[v]>>>>,
                     <<<<Table[c][x].to, "obj", Table[c][x].map[v]>>, <<x, "str", v>>>>}}
             : v \in DOMAIN Table[c][x].map} : x \in PairedNames(c)}
Events == UNION {Sets(i) \cup Dicts(i) : i \in Ids}
          \cup {[ev |-> "updatefrom", id |-> "a", src |-> "b"], [ev |-> "new", id |-> "b", cls |-> Cls]}
MayBe(e) == e.ev = "new" \/ Ok(st, e)
\* the report of a correct implementation
Report(e, st1, ok) == e @@ [ok |-> ok,
    exc |-> IF ok THEN "None" ELSE IF Known(st.ob[e.id].o, e.path) THEN "TraitError" ELSE "TypeError",
    ch |-> SelectSeq(<<<<"a", st1.ob["a"]>>, <<"b", st1.ob["b"]>>>>,
                     LAMBDA y : st.ob[y[1]] # st1.ob[y[1]])]
Init == n = 0 /\ st = [ob |-> [i \in Ids |-> NewObj(Cls)]]
Next == n < Depth /\ n' = n + 1 /\ \E e \in Events : st' = OApply(st, e)
Spec == Init /\ [][Next]_<<st, n>>

Accepted == \A e \in Events : OFails(st, Report(e, OApply(st, e), MayBe(e))) = {}
Matched == \A i \in Ids : \A x \in PairedNames(st.ob[i].o.c) :
    LET o == st.ob[i].o IN o.f[Table[o.c][x].to].c = Table[o.c][x].map[o.f[x].v]
OrderFree == \A i \in Ids : \A e \in Dicts(i) :
    Update(st.ob[i].o, e.entries) = Update(st.ob[i].o, <<e.entries[2], e.entries[1]>>)
Faulty ==
    \A e \in Events :
        LET st1 == OApply(st, e)
            ok == MayBe(e)
            good == Report(e, st1, ok)
        IN  /\ OFails(st, [good EXCEPT !.ok = ~ok]) # {} \/ e.ev = "new"
            /\ (st1.ob # st.ob => OFails(st, [good EXCEPT !.ch = <<>>]) # {})
Leaks == \A e \in Events :
        LET st1 == OApply(st, e)
            o == IF e.id = "a" THEN "b" ELSE "a"
            b == [st1.ob[o] EXCEPT !.o.f = [x \in DOMAIN @ |-> IF x \in {"update_free_surface", "use_bedload"} THEN [v |-> "leak"] ELSE @[x]]]
        IN  "other_objects_unchanged" \in OFails(st, [Report(e, st1, MayBe(e)) EXCEPT !.ch = Append(SelectSeq(@, LAMBDA y : y[1] # o), <<o, b>>)])
====
