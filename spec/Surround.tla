------------------------------ MODULE Surround ------------------------------
(* Where and how a command is run. The directory tree has a working           *)
(* directory w with the directories d (where the input is) and e, and         *)
(* symbolic links to directories: w/l to d, d/up to w, e/m to e. A path is    *)
(* written component by component and resolved as it is written; all ways of  *)
(* writing a path to d, from each directory, are found by search. Other       *)
(* surroundings are settings of the environment, at most MaxOdd of which      *)
(* differ from the ordinary (Asked are variables found by watching which      *)
(* names the commands look up, Sought files that they look for and do not     *)
(* find). A command has the same effect in all of them: its effect is a       *)
(* function of the directory that the path leads to.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, MaxOdd, What, Asked, Sought
VARIABLES at, cwd, abs, path, odd

vars == <<at, cwd, abs, path, odd>>
Dirs == {"", "w", "d", "e"}                      \* "" is the directory above w
Up(x) == CASE x = "" -> "" [] x = "w" -> "" [] OTHER -> "w"
Go(x, c) == CASE c = "." -> x
              [] c = ".." -> Up(x)
              [] c = "w" /\ x = "" -> "w"
              [] c \in {"d", "e"} /\ x = "w" -> c
              [] c = "l" /\ x = "w" -> "d"
              [] c = "up" /\ x = "d" -> "w"
              [] c = "m" /\ x = "e" -> "e"
              [] OTHER -> "none"
Aspects == [tz |-> {"east", "west", "missing"}, lang |-> {"de", "bytes"}, log |-> {"error", "trace", "odd"}, stdin |-> {"closed", "text", "terminal"},
            stdout |-> {"closed", "terminal"}, stderr |-> {"closed", "terminal"}, user |-> {"other"}, home |-> {"unset"}, width |-> {"narrow"},
            clock |-> {"past", "future"}, cpus |-> {"one"}, umask |-> {"private"}, stamps |-> {"past", "future"}, modes |-> {"readonly", "all"}]
           @@ [name \in Asked |-> {"one", "word"}]      \* the other variables of the environment that the commands look up
           @@ [name \in Sought |-> {"number", "settings", "flags", "empty"}]   \* what stands at a path that the commands look for
\* what is seen of a run: the directory where the output appears
Effect(dir) == dir

Init == /\ cwd \in Dirs /\ abs \in BOOLEAN /\ path = <<>> /\ odd = <<>>
        /\ at = IF abs THEN "" ELSE cwd
        /\ (What = "odd" => cwd = "w" /\ ~abs)
        /\ (What = "path" /\ at = "d" => PrintT("@" \o ToJson([cwd |-> cwd, abs |-> abs, path |-> path])))
Write == /\ What = "path" /\ Len(path) < MaxLen
         /\ \E c \in {".", "..", "w", "d", "e", "l", "up", "m"} :
              /\ Go(at, c) # "none"
              /\ (abs => ~(at = "" /\ c = ".."))          \* above is not ours
              /\ (~abs => ~(at = "" /\ c = ".."))
              /\ at' = Go(at, c) /\ path' = Append(path, c)
         /\ UNCHANGED <<cwd, abs, odd>>
         /\ (at' = "d" => PrintT("@" \o ToJson([cwd |-> cwd, abs |-> abs, path |-> path'])))
Vary == /\ What = "odd" /\ Len(odd) < MaxOdd
        /\ \E a \in DOMAIN Aspects : \E v \in Aspects[a] :
             /\ \A k \in 1..Len(odd) : odd[k].aspect # a
             /\ odd' = Append(odd, [aspect |-> a, value |-> v])
        /\ UNCHANGED <<at, cwd, abs, path>>
        /\ PrintT("@" \o ToJson(odd'))
Next == Write \/ Vary
\* a path leads where its components lead, however it is written and whatever the settings
RECURSIVE Resolve(_, _)
Resolve(x, p) == IF p = <<>> THEN x ELSE Resolve(Go(x, Head(p)), Tail(p))
Same == Effect(at) = Effect(Resolve(IF abs THEN "" ELSE cwd, path))
Known == at \in Dirs
=============================================================================
