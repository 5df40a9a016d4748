------------------------------ MODULE WatchRace -------------------------------
(* Builds write the same files: why a superseded one is waited for.            *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxEdits, Waits
VARIABLES src, n, cur, st, saw, lib, dest
vars == <<src, n, cur, st, saw, lib, dest>>
\* st[b]: "clean", "compile", "copy", "publish", "ended"; lib: what the compiler has written; dest: [wasm, index]
Builds == 1..MaxEdits + 1
Init == src = 1 /\ n = 1 /\ cur = 1 /\ st = [b \in Builds |-> IF b = 1 THEN "clean" ELSE "none"] /\ saw = [b \in Builds |-> 0] /\ lib = 0 /\ dest = [wasm |-> 0, index |-> 0]
Edit == src <= MaxEdits /\ src' = src + 1 /\ UNCHANGED <<n, cur, st, saw, lib, dest>>
\* the loop notices a change
Next1 == /\ n < src /\ (Waits => st[cur] = "ended")
         /\ n' = n + 1 /\ cur' = n + 1 /\ st' = [st EXCEPT ![n + 1] = "clean"]
         /\ UNCHANGED <<src, saw, lib, dest>>
Clean(b) == st[b] = "clean" /\ st' = [st EXCEPT ![b] = "compile"] /\ dest' = [wasm |-> 0, index |-> 0] /\ saw' = [saw EXCEPT ![b] = src] /\ UNCHANGED <<src, n, cur, lib>>
Compile(b) == st[b] = "compile" /\ st' = [st EXCEPT ![b] = "copy"] /\ lib' = saw[b] /\ UNCHANGED <<src, n, cur, saw, dest>>
Copy(b) == st[b] = "copy" /\ st' = [st EXCEPT ![b] = "publish"] /\ dest' = [dest EXCEPT !.wasm = lib] /\ UNCHANGED <<src, n, cur, saw, lib>>
Publish(b) == st[b] = "publish" /\ st' = [st EXCEPT ![b] = "ended"] /\ dest' = [dest EXCEPT !.index = saw[b]] /\ UNCHANGED <<src, n, cur, saw, lib>>
Next == Edit \/ Next1 \/ \E b \in Builds : Clean(b) \/ Compile(b) \/ Copy(b) \/ Publish(b)
Spec == Init /\ [][Next]_vars
\* the newest build has ended: what it has published is what it has compiled, of the newest sources
Consistent == (n = src /\ st[cur] = "ended") => dest = [wasm |-> src, index |-> src]
=============================================================================
