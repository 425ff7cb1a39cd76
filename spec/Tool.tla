-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The directory of a Go package in which yamlygen is invoked again and    *)
(* again: with any type, engine, options, output file and form of the      *)
(* directory, with broken sources, with deleted output, with invocations   *)
(* killed halfway.  Generated files use methods of other types which the   *)
(* package has at the time of generation.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSteps,
          Opts,      \* options: "none", "all"
          Tags,      \* "" and "foo"
          Outs,      \* "default", "x_gen.go"
          Dirs,      \* forms of the directory: "cwd", "arg", "abs", "env", "long"
          Faults,    \* BOOLEAN: invocations which can't succeed
          Crashes    \* BOOLEAN

VARIABLES files,   \* name -> generated file or None
          source,  \* "ok" or "broken"
          killed,  \* name of the output of a killed invocation or "no"
          n, last
vars == <<files, source, killed, n, last>>

Supported == {"Flat", "UserData", "HTTPLoop"}
Direct(t) == CASE t = "UserData" -> {"Flat"} [] t = "HTTPLoop" -> {"UserData"} [] OTHER -> {}
DefaultName(t) == CASE t = "Flat" -> "flat_yamly.go" [] t = "UserData" -> "user_data_yamly.go" [] t = "HTTPLoop" -> "http_loop_yamly.go"
                    [] OTHER -> "other_yamly.go"
Names == {DefaultName(t) : t \in Supported} \cup (Outs \ {"default"})

None == [t |-> "none", e |-> "", fl |-> "", tag |-> "", calls |-> {}]
Gen(t, e, fl, tag, calls) == [t |-> t, e |-> e, fl |-> fl, tag |-> tag, calls |-> calls]
Visible(fs, tag) == {m \in Names : fs[m].t # "none" /\ (fs[m].tag = "" \/ fs[m].tag = tag)}
HasMethods(fs, tag) == {fs[m].t : m \in Visible(fs, tag)}

(* The methods generated code of a type calls, given the types which have methods. *)
RECURSIVE Calls(_, _)
Calls(t, has) == UNION {IF u \in has THEN {u} ELSE Calls(u, has) : u \in Direct(t)}

Compiles(fs, tag) == /\ source = "ok"
                     /\ \A m \in Visible(fs, tag) : fs[m].calls \subseteq HasMethods(fs, tag)
                     /\ \A m, k \in Visible(fs, tag) : fs[m].t = fs[k].t => m = k

Req(t, e, fl, tag, out, dir) == [t |-> t, e |-> e, fl |-> fl, tag |-> tag, out |-> out, dir |-> dir]
Good == {Req(t, e, fl, tag, out, dir) : t \in Supported, e \in {"goyaml", "yayamls"}, fl \in Opts, tag \in Tags, out \in Outs, dir \in Dirs}
BadOnes == {Req(t, "goyaml", "none", "", "default", "cwd") : t \in {"Bad", "Missing", "Deep", ""}}
           \cup {Req("Flat", "other", "none", "", "default", "cwd")}
           \cup {Req("Flat", e, "none", "", out, "cwd") : e \in {"goyaml", "yayamls"}, out \in {"sub/x.go", "types.go", "x_test.go", "x.txt"}}
           \cup {Req("UserData", e, "none", "", "default", dir) : e \in {"goyaml", "yayamls"}, dir \in {"missing", "file", "two"}}
OutName(r) == IF r.out = "default" THEN DefaultName(r.t) ELSE r.out

(* While the generator runs, the output has only the methods of the type. *)
Others(r) == [files EXCEPT ![OutName(r)] = None]
Succeeds(r) == /\ r \in Good /\ source = "ok"
               /\ LET o == Others(r) IN
                  /\ r.t \notin HasMethods(o, r.tag)
                  /\ \A m, k \in Visible(o, r.tag) : o[m].t = o[k].t => m = k
                  /\ \A m \in Visible(o, r.tag) : o[m].calls \subseteq (HasMethods(o, r.tag) \cup {r.t})
After(r) == IF Succeeds(r) THEN [files EXCEPT ![OutName(r)] = Gen(r.t, r.e, r.fl, r.tag, Calls(r.t, HasMethods(Others(r), r.tag)))]
            ELSE files

Init == /\ files = [m \in Names |-> None] /\ source = "ok" /\ killed = "no" /\ n = 0
        /\ last = [op |-> "start"]
Step(op, r, ok) == /\ n < MaxSteps /\ n' = n + 1
                   /\ last' = [op |-> op, r |-> r, ok |-> ok, pre |-> files, src |-> source, killed |-> killed]

Invoke(r) == /\ killed \in {"no", IF r \in Good THEN OutName(r) ELSE "no"}
             /\ killed = "no" \/ Succeeds(r)
             /\ files' = After(r) /\ killed' = "no" /\ UNCHANGED source
             /\ Step("invoke", r, Succeeds(r))
(* The process is killed before or after its generator has run. *)
Kill(r, at) == /\ Crashes /\ killed = "no" /\ r \in Good /\ Succeeds(r)
               /\ files' = [files EXCEPT ![OutName(r)] = None] /\ killed' = OutName(r) /\ UNCHANGED source
               /\ Step("kill-" \o at, r, FALSE)
Delete(m) == /\ files[m] # None /\ killed = "no" /\ files' = [files EXCEPT ![m] = None] /\ UNCHANGED <<source, killed>>
             /\ Step("delete", [out |-> m], TRUE)
Edit == /\ Faults /\ killed = "no" /\ source' = IF source = "ok" THEN "broken" ELSE "ok"
        /\ UNCHANGED <<files, killed>> /\ Step("edit", [out |-> ""], TRUE)

Next == \/ \E r \in Good \cup (IF Faults THEN BadOnes ELSE {}) : Invoke(r)
        \/ \E r \in Good, at \in {"before", "after"} : r.dir = "cwd" /\ Kill(r, at)
        \/ \E m \in Names : Delete(m)
        \/ Edit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Invocations alone never break the package, whatever their order ... *)
StaysCompilable == [][(last'.op = "invoke" /\ last'.ok /\ Compiles(files, last'.r.tag)) => Compiles(files', last'.r.tag)]_vars
(* ... what they write depends on nothing but the request and the types which have methods ... *)
Determined == [][(last'.op = "invoke" /\ last'.ok) =>
                 files'[OutName(last'.r)] = Gen(last'.r.t, last'.r.e, last'.r.fl, last'.r.tag, Calls(last'.r.t, HasMethods(Others(last'.r), last'.r.tag)))]_vars
(* ... and without success they change nothing, and nothing but their output otherwise. *)
Preserved == [][/\ (last'.op = "invoke" /\ ~last'.ok) => files' = files
                /\ last'.op = "invoke" => \A m \in Names : m # OutName(last'.r) => files'[m] = files[m]]_vars
(* The same invocation again succeeds again. *)
Repeatable == (last.op = "invoke" /\ last.ok /\ source = "ok") => (Succeeds(last.r) /\ After(last.r) = files)

Emit == n > 0 => PrintT("B " \o ToJson([op |-> last.op, r |-> last.r, ok |-> last.ok, src |-> last.src, killed |-> last.killed,
                                        pre |-> last.pre, post |-> files, n |-> n,
                                        builds |-> [plain |-> Compiles(files, ""), foo |-> Compiles(files, "foo")]]))
=============================================================================
