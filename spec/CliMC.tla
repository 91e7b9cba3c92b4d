------------------------------- MODULE CliMC -------------------------------
(* Sequences of commands over a small directory. Contents are what they mean: *)
(* a raw series, a table with a series, a stream made of a series in some     *)
(* mode, or something else.                                                   *)
(* Each command reads one file and writes at most one.                        *)
EXTENDS Cli, TLC, Json

CONSTANTS Modes, MaxCmds, Inits, EmitFrom
VARIABLES fs, start, ops

vars == <<fs, start, ops>>
Foreign(k) == [kind |-> "foreign", of |-> <<k>>]
Table(s) == [kind |-> "csv", of |-> s]
Raw(s) == [kind |-> "wbro", of |-> s]
A(ext) == <<97>> \o ext
B(ext) == <<98, 46, 120>> \o ext            \* b.x
Plain == <<99>>                             \* c, without an extension
\* directories to start from
InitList == <<
  {<<A(WbroExt), Raw(<<1>>)>>, <<B(WbroExt), Raw(<<2>>)>>},
  {<<A(WbroExt), Raw(<<1>>)>>, <<A(BroExt), Foreign(1)>>, <<Plain, Raw(<<2>>)>>},
  {<<A(BroExt), Raw(<<2>>)>>, <<B(WbroExt), Foreign(2)>>, <<Plain, Foreign(3)>>},
  {<<A(WbroExt), Raw(<<3>>)>>, <<B(BroExt), Foreign(4)>>},
  {<<A(CsvExt), Table(<<4>>)>>, <<Plain, Table(<<5>>)>>, <<A(WbroExt), Raw(<<1>>)>>} >>
InitSet == {1, 2, 3, 4, 5}
Targets == {A(CsvExt), A(WbroExt), A(BroExt), B(WbroExt), B(BroExt), Plain}

Source(op) == CASE op = "compress" -> "wbro" [] op = "csv" -> "csv" [] OTHER -> "bro"
Compress(name, mode, op) ==
  IF Has(fs, name) /\ Get(fs, name).kind = Source(op)
  THEN Put(fs, WithExt(name, BroExt), [kind |-> "bro", of |-> Get(fs, name).of \o <<mode>>])
  ELSE fs
Decompress(name) ==
  IF Has(fs, name) /\ Get(fs, name).kind = "bro"
  THEN Put(fs, WithExt(name, WbroExt), Raw(Get(fs, name).of)) ELSE fs

Init == \E k \in Inits : start = k /\ fs = InitList[k] /\ ops = <<>>
Op(o) == ops' = Append(ops, o) /\ (Len(ops') >= EmitFrom => PrintT("@" \o ToJson([start |-> start, ops |-> ops'])))
Next == /\ Len(ops) < MaxCmds
        /\ UNCHANGED start
        /\ \E t \in Targets :
             \/ \E m \in Modes : fs' = Compress(t, m, "compress") /\ Op([op |-> "compress", name |-> t, mode |-> m])
             \/ fs' = Compress(t, 1, "csv") /\ Op([op |-> "csv", name |-> t, mode |-> 1])
             \/ fs' = Decompress(t) /\ Op([op |-> "decompress", name |-> t, mode |-> 0])

Names(s) == {f[1] : f \in s}
OneContentEach == \A f, g \in fs : f[1] = g[1] => f = g
\* at most one file is written, and none removed
OneOutput == [][/\ Names(fs) \subseteq Names(fs')
                /\ Cardinality(fs' \ fs) <= 1
                /\ \A f \in fs' \ fs : f[1] \in {WithExt(ops'[Len(ops')].name, BroExt), WithExt(ops'[Len(ops')].name, WbroExt)}]_vars
\* what is not of the expected kind changes nothing
OthersAlone == [][LET o == ops'[Len(ops')] IN
                  (~Has(fs, o.name) \/ Get(fs, o.name).kind # Source(o.op)) => fs' = fs]_vars
=============================================================================
