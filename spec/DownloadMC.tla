----------------------------- MODULE DownloadMC -----------------------------
(* The steps of a download, with partial files that are resumed, deaths anywhere and a server
   whose file changes: what becomes visible is one version, and complete; and the visible
   behaviour is that of Download.
   One URL; a file is a sequence of Parts parts, each marked with the version it comes from.  *)
EXTENDS Download, Json
CONSTANTS Parts, MaxV, Racy      \* Racy: the file may change between the HEAD and the GET of an attempt
VARIABLES srv, disk, part, ptag, pc, head, old, chk, dl, upd, n
vars == <<srv, disk, part, ptag, pc, head, old, chk, dl, upd, n>>
\* part: the partial file (-1: none), ptag the tag beside it (-1: no tag file), head the tag seen in this attempt
File == [v : 0..MaxV, tag : 0..MaxV]
MCInit == /\ srv = [v |-> 1, st |-> "ok", head |-> TRUE, tag |-> TRUE]
          /\ disk = [v |-> 0, tag |-> 0, data |-> <<>>] /\ part = <<>> /\ ptag = -1 /\ pc = "idle" /\ head = 0 /\ old = 0
          /\ chk = FALSE /\ dl = FALSE /\ upd = FALSE /\ n = 0
Dk == [v |-> disk.v, tag |-> disk.tag]
Publish == /\ (pc = "idle" \/ Racy) /\ srv.v < MaxV
           /\ \E st \in {"ok", "cut"}, h, t \in BOOLEAN : srv' = [v |-> srv.v + 1, st |-> st, head |-> h, tag |-> t]
           /\ UNCHANGED <<disk, part, ptag, pc, head, old, chk, dl, upd, n>>
Repair == /\ srv.st # "ok" /\ srv' = [srv EXCEPT !.st = "ok"] /\ UNCHANGED <<disk, part, ptag, pc, head, old, chk, dl, upd, n>>
Ask == /\ pc = "idle" /\ n < 3 /\ n' = n + 1
       /\ \E c, d, u, f \in BOOLEAN : /\ chk' = c /\ dl' = d /\ upd' = u
                                      /\ pc' = IF Wanted(Dk, srv, c, d, f, u) THEN "start" ELSE "idle"
       /\ head' = Tag(srv) /\ old' = srv.v
       /\ UNCHANGED <<srv, disk, part, ptag>>
\* keep the partial file only if it is known to be of the same version, and not longer than the file
Start == /\ pc = "start"
         /\ LET same == head # 0 /\ ptag = head /\ Len(part) < Parts IN
            /\ part' = IF same THEN part ELSE <<>>
            /\ ptag' = IF head # 0 THEN head ELSE ptag
         /\ pc' = "transfer" /\ UNCHANGED <<srv, disk, head, old, chk, dl, upd, n>>
Transfer == /\ pc = "transfer" /\ Len(part) < Parts
            /\ part' = Append(part, IF Racy THEN srv.v ELSE old)
            /\ (srv.st = "cut" => Len(part') < Parts)
            /\ UNCHANGED <<srv, disk, ptag, pc, head, old, chk, dl, upd, n>>
Cut == /\ pc = "transfer" /\ srv.st = "cut" /\ pc' = "idle" /\ UNCHANGED <<srv, disk, part, ptag, head, old, chk, dl, upd, n>>
Finish == /\ pc = "transfer" /\ Len(part) = Parts
          /\ disk' = [v |-> part[1], tag |-> head, data |-> part] /\ part' = <<>> /\ ptag' = -1 /\ pc' = "idle"
          /\ UNCHANGED <<srv, head, old, chk, dl, upd, n>>
Die == /\ pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<srv, disk, part, ptag, head, old, chk, dl, upd, n>>
MCNext == Publish \/ Repair \/ Ask \/ Start \/ Transfer \/ Cut \/ Finish \/ Die
MCSpec == MCInit /\ [][MCNext]_vars

Whole == disk.v # 0 => Len(disk.data) = Parts /\ \A k \in 1..Parts : disk.data[k] = disk.v
PartInv == ~Racy => \A j, k \in DOMAIN part : part[j] = part[k]
\* what is cached is replaced as a whole, by what the server has, and only by a download that was wanted
ReplaceProp == [][disk' # disk => pc = "transfer" /\ (disk'.v = old)]_vars
Abstract == [][disk' # disk => [v |-> disk'.v, tag |-> disk'.tag] = Get(Dk, [srv EXCEPT !.st = "ok"], chk, dl, TRUE, upd).d]_vars
=============================================================================
