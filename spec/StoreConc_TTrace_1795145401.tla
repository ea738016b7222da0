---- MODULE StoreConc_TTrace_1795145401 ----
EXTENDS StoreConc, Sequences, TLCExt, Toolbox, StoreConc_TEConstants, Naturals, TLC

_expression ==
    LET StoreConc_TEExpression == INSTANCE StoreConc_TEExpression
    IN StoreConc_TEExpression!expression
----

_trace ==
    LET StoreConc_TETrace == INSTANCE StoreConc_TETrace
    IN StoreConc_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        val = ((w1 :> {} @@ w2 :> {}))
        /\
        searches = (0)
        /\
        df = ((t1 :> 0 @@ t2 :> 0))
        /\
        waits = ({})
        /\
        ticks = (0)
        /\
        inside = ({})
        /\
        s = ((s1 :> [pc |-> "idle"]))
        /\
        size = (1)
        /\
        post = ((t1 :> {} @@ t2 :> {}))
        /\
        saves = (2)
        /\
        readers = ({})
        /\
        w = ((w1 :> [pc |-> "idle"] @@ w2 :> [pc |-> "idle"]))
        /\
        saver = ("takes")
        /\
        doc = ((w1 :> {} @@ w2 :> {}))
    )
----

_init ==
    /\ doc = _TETrace[1].doc
    /\ readers = _TETrace[1].readers
    /\ val = _TETrace[1].val
    /\ s = _TETrace[1].s
    /\ w = _TETrace[1].w
    /\ ticks = _TETrace[1].ticks
    /\ df = _TETrace[1].df
    /\ size = _TETrace[1].size
    /\ waits = _TETrace[1].waits
    /\ searches = _TETrace[1].searches
    /\ post = _TETrace[1].post
    /\ inside = _TETrace[1].inside
    /\ saver = _TETrace[1].saver
    /\ saves = _TETrace[1].saves
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ doc  = _TETrace[i].doc
        /\ doc' = _TETrace[j].doc
        /\ readers  = _TETrace[i].readers
        /\ readers' = _TETrace[j].readers
        /\ val  = _TETrace[i].val
        /\ val' = _TETrace[j].val
        /\ s  = _TETrace[i].s
        /\ s' = _TETrace[j].s
        /\ w  = _TETrace[i].w
        /\ w' = _TETrace[j].w
        /\ ticks  = _TETrace[i].ticks
        /\ ticks' = _TETrace[j].ticks
        /\ df  = _TETrace[i].df
        /\ df' = _TETrace[j].df
        /\ size  = _TETrace[i].size
        /\ size' = _TETrace[j].size
        /\ waits  = _TETrace[i].waits
        /\ waits' = _TETrace[j].waits
        /\ searches  = _TETrace[i].searches
        /\ searches' = _TETrace[j].searches
        /\ post  = _TETrace[i].post
        /\ post' = _TETrace[j].post
        /\ inside  = _TETrace[i].inside
        /\ inside' = _TETrace[j].inside
        /\ saver  = _TETrace[i].saver
        /\ saver' = _TETrace[j].saver
        /\ saves  = _TETrace[i].saves
        /\ saves' = _TETrace[j].saves

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("StoreConc_TTrace_1795145401.json", _TETrace)

=============================================================================

 Note that you can extract this module `StoreConc_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `StoreConc_TEExpression.tla` file takes precedence 
  over the module `StoreConc_TEExpression` below).

---- MODULE StoreConc_TEExpression ----
EXTENDS StoreConc, Sequences, TLCExt, Toolbox, StoreConc_TEConstants, Naturals, TLC

expression == 
    [
        \* To hide variables of the `StoreConc` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        doc |-> doc
        ,readers |-> readers
        ,val |-> val
        ,s |-> s
        ,w |-> w
        ,ticks |-> ticks
        ,df |-> df
        ,size |-> size
        ,waits |-> waits
        ,searches |-> searches
        ,post |-> post
        ,inside |-> inside
        ,saver |-> saver
        ,saves |-> saves
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_docUnchanged |-> doc = doc'
        
        \* Format the `doc` variable as Json value.
        \* ,_docJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(doc)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_docModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].doc # _TETrace[s-1].doc
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE StoreConc_TETrace ----
\*EXTENDS StoreConc, IOUtils, StoreConc_TEConstants, TLC
\*
\*trace == IODeserialize("StoreConc_TTrace_1795145401.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE StoreConc_TETrace ----
EXTENDS StoreConc, StoreConc_TEConstants, TLC

trace == 
    <<
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 0,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 0,readers |-> {},w |-> (w1 :> [pc |-> "idle"] @@ w2 :> [pc |-> "idle"]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 0,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 1,readers |-> {},w |-> (w1 :> [pc |-> "want", new |-> {}, todo |-> <<>>, seen |-> 0] @@ w2 :> [pc |-> "idle"]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 0,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 1,readers |-> {w1},w |-> (w1 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "see", t |-> ""], [k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0] @@ w2 :> [pc |-> "idle"]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 0,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 1,readers |-> {w1},w |-> (w1 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0] @@ w2 :> [pc |-> "idle"]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 0,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w1},w |-> (w1 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0] @@ w2 :> [pc |-> "want", new |-> {}, todo |-> <<>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 0,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w1, w2},w |-> (w1 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0] @@ w2 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "see", t |-> ""], [k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 0,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w1, w2},w |-> (w1 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0] @@ w2 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 1,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w1, w2},w |-> (w1 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "doc", t |-> ""]>>, seen |-> 0] @@ w2 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {"none"} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {"none"} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 1,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w1, w2},w |-> (w1 :> [pc |-> "in", new |-> {}, todo |-> <<>>, seen |-> 0] @@ w2 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 1,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w2},w |-> (w1 :> [pc |-> "idle"] @@ w2 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "size", t |-> ""], [k |-> "doc", t |-> ""]>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 1,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w2},w |-> (w1 :> [pc |-> "idle"] @@ w2 :> [pc |-> "in", new |-> {}, todo |-> <<[k |-> "doc", t |-> ""]>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {} @@ w2 :> {"none"})]),
    ([val |-> (w1 :> {} @@ w2 :> {"none"}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 1,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {w2},w |-> (w1 :> [pc |-> "idle"] @@ w2 :> [pc |-> "in", new |-> {}, todo |-> <<>>, seen |-> 0]),saver |-> "takes",doc |-> (w1 :> {} @@ w2 :> {})]),
    ([val |-> (w1 :> {} @@ w2 :> {}),searches |-> 0,df |-> (t1 :> 0 @@ t2 :> 0),waits |-> {},ticks |-> 0,inside |-> {},s |-> (s1 :> [pc |-> "idle"]),size |-> 1,post |-> (t1 :> {} @@ t2 :> {}),saves |-> 2,readers |-> {},w |-> (w1 :> [pc |-> "idle"] @@ w2 :> [pc |-> "idle"]),saver |-> "takes",doc |-> (w1 :> {} @@ w2 :> {})])
    >>
----


=============================================================================

---- MODULE StoreConc_TEConstants ----
EXTENDS StoreConc

CONSTANTS w1, w2, s1, t1, t2

=============================================================================

---- CONFIG StoreConc_TTrace_1795145401 ----
CONSTANTS
    Stale = FALSE
    Writers = { w1 , w2 }
    Searchers = { s1 }
    Terms = { t1 , t2 }
    MaxSaves = 3
    MaxSearches = 1
    MaxTicks = 1
    BUG = "save_rlock"
    w1 = w1
    t2 = t2
    w2 = w2
    s1 = s1
    t1 = t1

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 03:30:06 UTC 2026