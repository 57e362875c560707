----------------------------- MODULE UpdateStep -----------------------------
(* a step of the archive and the files as seen on a disk: from [arc, gone]   *)
(* to [arc, gone] while an update from o to n runs                           *)
Allowed(a, b, o, n, mv) ==
    /\ (a.arc # b.arc => a.arc = o /\ b.arc = n)
    /\ (a.gone # b.gone => mv /\ b.arc = n /\ a.gone \subseteq b.gone)
=============================================================================
