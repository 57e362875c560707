----------------------------- MODULE StoreModel -----------------------------
(* All histories of an archive of a few names, contents and times.           *)
EXTENDS Store, TLC

Names == {<<97>>, <<97, 98>>, <<66>>}      \* a, ab, B
Contents == {1, 2}
Days == {1, 2}

VARIABLES arc,      \* members: [name, time, data]
          given     \* for every name what was last put under it, or 0

Time(d) == [day |-> d, sec |-> 0]
Sources == [name : Names, entry : {<<>>}, kind : {"f"}, time : {Time(d) : d \in Days}, self : {FALSE}, under : {<<>>}, data : Contents]
           \union [name : Names, entry : {<<>>}, kind : {"x"}, time : {Time(0)}, self : {FALSE}, under : {<<>>}, data : {0}]
Fixed(s) == [s EXCEPT !.entry = s.name]
Lists == {<<Fixed(s)>> : s \in Sources} \union
         {<<Fixed(s), Fixed(t)>> : <<s, t>> \in {p \in Sources \X Sources : p[1].name # p[2].name}}
Options == {o \in [sort : BOOLEAN, update : BOOLEAN, fresh : BOOLEAN, generic : {TRUE}, exclude : {{}, {<<65>>}}, auto : BOOLEAN] :
               o.auto => o.update /\ ~o.fresh}

Made(s) == [name |-> s.entry, time |-> s.time, data |-> s.data]

Init == arc = <<>> /\ given = [n \in Names |-> 0]

Add(ss, o) ==
    LET going == Going(arc, ss, o)
    IN  /\ arc' = Merge(Base(arc, o), FoldLeft(LAMBDA a, s : Append(a, Made(s)), <<>>, going), EntriesOf(going), o)
        /\ Assert(InOrder(arc, ss, o, FoldLeft(LAMBDA a, m : Append(a, m.name), <<>>, arc')), "order")
        /\ Assert(\A m \in Range(Kept(arc, ss, o)) : m \in Range(arc'), "a member is lost")
        /\ Assert(\A s \in Range(going) : Made(s) \in Range(arc'), "a source is lost")
        /\ given' = [n \in Names |-> IF n \in EntriesOf(going) THEN (CHOOSE s \in Range(going) : s.entry = n).data
                                     ELSE IF o.fresh THEN 0 ELSE given[n]]

(* without names given, the files are taken in order *)
Fits(ss, o) == o.auto /\ Len(ss) = 2 => Less(ss[1].name, ss[2].name)

Next == \E ss \in Lists, o \in Options : Fits(ss, o) /\ Add(ss, o)
Spec == Init /\ [][Next]_<<arc, given>>

OnePerName == Unique(arc)
Latest == \A n \in Names : IF given[n] = 0 THEN n \notin NamesOf(arc)
                           ELSE n \in NamesOf(arc) /\ Named1(arc, n).data = given[n]
=============================================================================
