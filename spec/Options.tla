---- MODULE Options ----
(***************************************************************************)
(* Model options: the objects a user configures a model with.              *)
(*                                                                         *)
(* State: objects by name; an object has the tree o of its options, the    *)
(* ordered tracer fields tr and the ordered fields to solve for tf.        *)
(*   node [c |-> class, f |-> option name -> node or leaf]                 *)
(*   leaf [v |-> printed value]                                            *)
(*                                                                         *)
(* events (id: object; ch: the objects that changed, <<id, new value>>):   *)
(*   new        object of class cls                                        *)
(*   set        option at path to the value v of type t; ok: accepted      *)
(*   inplace    the value at path itself is changed: assign to a Constant, *)
(*              append to a list, add an entry to a dictionary             *)
(*   update     dictionary of entries <<name, t, v>>                       *)
(*   updatefrom options of the object src                                  *)
(*   settype    set_timestepper_type with keyword arguments kw             *)
(*   tracer     add_tracer_2d; system: add_tracer_system_2d                *)
(*   closure    GLSModelOptions.apply_defaults                             *)
(* A set of a value that is not admissible is refused and changes nothing. *)
(* Changing a paired option replaces its options object by the defaults of *)
(* the class of the new value. No operation changes another object.        *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, OptionsTable, TLC

Cl(c, n) == IF c THEN {} ELSE {n}

RECURSIVE New(_)
New(cls) ==
    [c |-> cls,
     f |-> IF cls = "EquationOfStateOptions" THEN <<>>
           ELSE [n \in DOMAIN Table[cls] |->
                    IF Table[cls][n].k \in {"slave", "inst"} THEN New(Table[cls][n].d)
                    ELSE [v |-> Table[cls][n].d]]]
NewObj(cls) == [o |-> New(cls), tr |-> <<>>, tf |-> <<>>]

Names(o) == IF o.c = "EquationOfStateOptions" THEN {} ELSE DOMAIN o.f

(* ------------------------- admissible values -------------------------- *)
Num(t, v) == IF t = "int" THEN v \o ".0" ELSE v
Values(m) == {m[x] : x \in DOMAIN m}
\* the pairs of type and options object of class cls: <<option, its paired type>>
PairOf(cls, n) == CHOOSE m \in DOMAIN Table[cls] : Table[cls][m].k = "paired" /\ Table[cls][m].to = n
Admissible(cls, n, t, v) ==
    LET r == Table[cls][n] IN
    IF t = "none" THEN r.none ELSE
    CASE r.k = "bool" -> t = "bool"
      [] r.k = "float" -> t \in {"float", "int"}
      [] r.k = "posfloat" -> t \in {"float", "int"} /\ RLt("0", v)
      [] r.k = "nnfloat" -> t \in {"float", "int"} /\ RLe("0", v)
      [] r.k = "bfloat" -> t \in {"float", "int"} /\ RLe(r.lo, v) /\ RLe(v, r.hi)
      [] r.k = "int" -> t = "int"
      [] r.k = "posint" -> t = "int" /\ RLt("0", v)
      [] r.k = "nnint" -> t = "int" /\ RLe("0", v)
      [] r.k = "enum" -> t = "str" /\ v \in r.values
      [] r.k = "paired" -> t = "str" /\ v \in DOMAIN r.map
      [] r.k = "const" -> t = "const"
      [] r.k = "coef" -> t \in {"const", "func"}
      [] r.k = "sexpr" -> t \in {"const", "func", "expr"}
      [] r.k = "vexpr" -> t \in {"vconst", "vfunc"}
      [] r.k = "date" -> t = "date"
      [] r.k = "params" -> t = "dict"
      [] r.k = "str" -> t = "str"
      [] r.k = "list" -> t = "list"
      [] r.k = "slave" -> t = "obj" /\ v \in Values(Table[cls][PairOf(cls, n)].map)
      [] r.k = "inst" -> t = "obj" /\ v = r.d
      [] OTHER -> FALSE
Leaf(cls, n, t, v) ==
    CASE t = "none" -> [v |-> "None"]
      [] t = "obj" -> New(v)
      [] t = "int" /\ Table[cls][n].k \in {"float", "posfloat", "nnfloat", "bfloat"} -> [v |-> v \o ".0"]
      [] t \in {"const", "vconst", "func", "vfunc", "expr", "date"} -> [v |-> t \o " " \o v]
      [] OTHER -> [v |-> v]

(* ------------------------------ changes ------------------------------- *)
\* the option n of the node o is set to an admissible value
SetIn(o, n, t, v) ==
    LET r == Table[o.c][n]
        o1 == [o EXCEPT !.f[n] = Leaf(o.c, n, t, v)]
    IN  IF r.k = "paired" /\ o.f[n].v # v THEN [o1 EXCEPT !.f[r.to] = New(r.map[v])] ELSE o1
RECURSIVE At(_, _)
At(o, path) == IF path = <<>> THEN o ELSE At(o.f[path[1]], Tail(path))
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
RECURSIVE Put(_, _, _)
Put(o, path, x) == IF path = <<>> THEN x ELSE [o EXCEPT !.f[path[1]] = Put(@, Tail(path), x)]

Known(o, path) == Last(path) \in Names(At(o, Front(path)))
SetOk(o, path, t, v) == Known(o, path) /\ Admissible(At(o, Front(path)).c, Last(path), t, v)
Set(o, path, t, v) == Put(o, Front(path), SetIn(At(o, Front(path)), Last(path), t, v))

InPlace(o, path, how, v) ==
    LET x == At(o, path).v
        y == CASE how = "assign" -> "const " \o v
               [] how = "append" -> IF x = "" THEN v ELSE x \o "," \o v
               [] how = "entry" -> IF x = "" THEN v ELSE x \o ";" \o v
    IN  Put(o, path, [v |-> y])

\* the entries of a dictionary: the paired options first, whatever their order
RECURSIVE SetAll(_, _)
SetAll(o, en) == IF en = <<>> THEN o ELSE SetAll(SetIn(o, en[1][1], en[1][2], en[1][3]), Tail(en))
IsPaired(o, x) == Table[o.c][x[1]].k = "paired"
Update(o, en) == LET P(x) == IsPaired(o, x)
                     Q(x) == ~IsPaired(o, x)
                 IN  SetAll(SetAll(o, SelectSeq(en, P)), SelectSeq(en, Q))

\* the components whose time stepper set_timestepper_type sets: <<path of the owner, type, options>>
On(o, p) == At(o, p).v = "True"
Components(o) ==
    <<<<<<>>, "swe_timestepper_type", "swe_timestepper_options">>,
      <<<<>>, "tracer_timestepper_type", "tracer_timestepper_options">>>>
    \o (IF On(o, <<"sediment_model_options", "solve_suspended_sediment">>)
        THEN <<<<<<"sediment_model_options">>, "sediment_timestepper_type", "sediment_timestepper_options">>>> ELSE <<>>)
    \o (IF On(o, <<"sediment_model_options", "solve_exner">>)
        THEN <<<<<<"sediment_model_options">>, "exner_timestepper_type", "exner_timestepper_options">>>> ELSE <<>>)
    \o (IF On(o, <<"nh_model_options", "solve_nonhydrostatic_pressure">>)
        THEN <<<<<<"nh_model_options">>, "free_surface_timestepper_type", "free_surface_timestepper_options">>>> ELSE <<>>)
RECURSIVE SetKw(_, _, _)
SetKw(o, path, kw) == IF kw = <<>> THEN o
                      ELSE SetKw(Set(o, path \o <<kw[1][1]>>, kw[1][2], kw[1][3]), path, Tail(kw))
RECURSIVE SetTypes(_, _, _, _)
SetTypes(o, cs, ty, kw) ==
    IF cs = <<>> THEN o
    ELSE LET c == cs[1]
             o1 == Set(o, c[1] \o <<c[2]>>, "str", ty)
         IN  SetTypes(SetKw(o1, c[1] \o <<c[3]>>, kw), Tail(cs), ty, kw)

(* ------------------------------ tracers ------------------------------- *)
Labels(b) == {b.tr[k].label : k \in 1..Len(b.tr)}
TracerOk(b, x) == x.label \notin Labels(b) /\ ~x.badlabel /\ ~x.badfile
TracerRec(x) == [label |-> x.label, name |-> x.name, shortname |-> IF x.shortname = "None" THEN x.name ELSE x.shortname,
                 unit |-> IF x.unit = "None" THEN "-" ELSE x.unit, filename |-> x.filename, function |-> x.function,
                 source |-> x.source, diffusivity |-> x.diffusivity, conservative |-> x.conservative]
AddTracer(b, x) == [b EXCEPT !.tr = Append(@, TracerRec(x)), !.tf = Append(@, <<x.label, x.function>>)]
RECURSIVE Joined(_)
Joined(xs) == IF Len(xs) = 1 THEN xs[1].label ELSE xs[1].label \o "," \o Joined(Tail(xs))
AddSystem(b, xs, fn) == [b EXCEPT !.tr = @ \o [k \in 1..Len(xs) |-> TracerRec(xs[k])],
                                  !.tf = Append(@, <<Joined(xs), fn>>)]

(* Parameters of the closures of the generic length scale model           *)
(* (Umlauf and Burchard 2003; Warner et al. 2005, tables 1 and 2)         *)
Closure(name) ==
    CASE name = "k-epsilon" ->
           [p |-> "3.0", m |-> "1.5", n |-> "-1.0", cmu0 |-> "0.5477", schmidt_nb_tke |-> "1.0", schmidt_nb_psi |-> "1.3",
            c1 |-> "1.44", c2 |-> "1.92", c3_plus |-> "1.0", c3_minus |-> "-0.52", f_wall |-> "1.0", k_min |-> "1e-06",
            eps_min |-> "1e-14", psi_min |-> "1e-14", closure_name |-> name]
      [] name = "k-omega" ->
           [p |-> "-1.0", m |-> "0.5", n |-> "-1.0", cmu0 |-> "0.5477", schmidt_nb_tke |-> "2.0", schmidt_nb_psi |-> "2.0",
            c1 |-> "0.555", c2 |-> "0.833", c3_plus |-> "1.0", c3_minus |-> "-0.52", f_wall |-> "1.0", k_min |-> "7.6e-06",
            eps_min |-> "1e-14", psi_min |-> "1e-14", closure_name |-> name]
      [] name = "Generic Length Scale" ->
           [p |-> "2.0", m |-> "1.0", n |-> "-0.67", cmu0 |-> "0.5477", schmidt_nb_tke |-> "0.8", schmidt_nb_psi |-> "1.07",
            c1 |-> "1.0", c2 |-> "1.22", c3_plus |-> "1.0", c3_minus |-> "0.05", f_wall |-> "1.0", k_min |-> "1e-06",
            eps_min |-> "1e-14", psi_min |-> "1e-14", closure_name |-> name]
Closures == {"k-epsilon", "k-omega", "Generic Length Scale"}
ApplyClosure(o, name) == LET d == Closure(name) IN
    [o EXCEPT !.f = [n \in DOMAIN @ |-> IF n \in DOMAIN d THEN [v |-> d[n]] ELSE @[n]]]

(* ------------------------------- system ------------------------------- *)
OInit(cfg) == [ob |-> [x \in {} |-> 0]]

Ok(st, e) ==
    CASE e.ev = "set" -> SetOk(st.ob[e.id].o, e.path, e.t, e.v)
      [] e.ev = "tracer" -> TracerOk(st.ob[e.id], e.x)
      [] e.ev = "closure" -> e.name \in Closures
      [] OTHER -> TRUE

After(st, e) ==
    LET b == st.ob[e.id] IN
    CASE e.ev = "set" -> [b EXCEPT !.o = Set(@, e.path, e.t, e.v)]
      [] e.ev = "inplace" -> [b EXCEPT !.o = InPlace(@, e.path, e.how, e.v)]
      [] e.ev = "update" -> [b EXCEPT !.o = Update(@, e.entries)]
      [] e.ev = "updatefrom" -> [b EXCEPT !.o = st.ob[e.src].o]
      [] e.ev = "settype" -> [b EXCEPT !.o = SetTypes(@, Components(@), e.type, e.kw)]
      [] e.ev = "tracer" -> AddTracer(b, e.x)
      [] e.ev = "system" -> AddSystem(b, e.xs, e.fn)
      [] e.ev = "closure" -> [b EXCEPT !.o = Put(@, e.path, ApplyClosure(At(@, e.path), e.name))]

OApply(st, e) ==
    IF e.ev = "new" THEN [st EXCEPT !.ob = (e.id :> NewObj(e.cls)) @@ @]
    ELSE IF Ok(st, e) THEN [st EXCEPT !.ob[e.id] = After(st, e)] ELSE st

Reported(st, e, i) == LET S == {k \in 1..Len(e.ch) : e.ch[k][1] = i} IN
    IF S = {} THEN IF i \in DOMAIN st.ob THEN st.ob[i] ELSE [o |-> [v |-> "missing"], tr |-> <<>>, tf |-> <<>>]
    ELSE e.ch[CHOOSE k \in S : TRUE][2]

OFails(st, e) ==
    IF e.ev \notin {"new", "set", "inplace", "update", "updatefrom", "settype", "tracer", "system", "closure"} THEN {"known_event"}
    ELSE IF e.ev # "new" /\ ~Ok(st, e) /\ e.ok THEN {"accepts_only_admissible"}
    ELSE IF e.ev # "new" /\ Ok(st, e) /\ ~e.ok THEN {"accepts_admissible"}
    ELSE LET st1 == TLCEval(OApply(st, e))
             Rep == TLCEval([i \in DOMAIN st1.ob |-> Reported(st, e, i)])
         IN  Cl(Rep[e.id] = st1.ob[e.id],
                CASE e.ev = "new" -> "documented_defaults"
                  [] e.ev # "new" /\ ~e.ok -> "refused_changes_nothing"
                  [] OTHER -> e.ev \o "_result")
             \cup Cl(\A i \in DOMAIN st1.ob \ {e.id} : Rep[i] = st1.ob[i], "other_objects_unchanged")
             \cup (IF e.ev = "set" /\ ~e.ok
                   THEN Cl(e.exc = (IF Known(st.ob[e.id].o, e.path) THEN "TraitError" ELSE "TypeError"), "refused_with_error") ELSE {})

OInvFails(st) == {}
OFinal(st) == {}
====
