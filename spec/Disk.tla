-------------------------------- MODULE Disk --------------------------------
(* A directory of files as processes see it: names for files, files of bytes,*)
(* open descriptors.  What one system call e does to it is After(d, e); a    *)
(* call that failed (e.ret < 0) does nothing.                                *)
(*   d.dir   name -> file      d.data  file -> its bytes                     *)
(*   d.fd    descriptor -> [file, pos, app]                                  *)
(* Calls are records [op, path, to, fd, from, creat, excl, trunc, app, data, *)
(* pos, ret].                                                                *)
EXTENDS Integers, Sequences

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Zeros(n) == [i \in 1..n |-> 0]
(* s with the bytes b written at offset p *)
Put(s, p, b) ==
    IF Len(b) = 0 THEN s
    ELSE (IF p <= Len(s) THEN SubSeq(s, 1, p) ELSE s \o Zeros(p - Len(s)))
         \o b \o (IF p + Len(b) < Len(s) THEN SubSeq(s, p + Len(b) + 1, Len(s)) ELSE <<>>)
Cut(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))

Fresh(d) == CHOOSE i \in 1..(Len(d.data) + 1) : i = Len(d.data) + 1

HasName(d, p) == p \in DOMAIN d.dir
At(d, p) == d.data[d.dir[p]]

Opened(d, e) ==
    LET new == ~HasName(d, e.path)
        f == IF new THEN Len(d.data) + 1 ELSE d.dir[e.path]
        data == IF new THEN Append(d.data, <<>>) ELSE IF e.trunc THEN [d.data EXCEPT ![f] = <<>>] ELSE d.data
    IN  [dir |-> IF new THEN With(d.dir, e.path, f) ELSE d.dir, data |-> data,
         fd |-> With(d.fd, e.ret, [file |-> f, pos |-> 0, app |-> e.app])]

Wrote(d, fd, b, moves, at) ==
    LET x == d.fd[fd]
        p == IF x.app THEN Len(d.data[x.file]) ELSE at
    IN  [d EXCEPT !.data[x.file] = Put(@, p, b), !.fd[fd].pos = IF moves THEN p + Len(b) ELSE @]

After(d, e) ==
    IF e.ret < 0 THEN d
    ELSE CASE e.op = "open" -> Opened(d, e)
           [] e.op = "write" -> Wrote(d, e.fd, SubSeq(e.data, 1, e.ret), TRUE, d.fd[e.fd].pos)
           [] e.op = "pwrite" -> Wrote(d, e.fd, SubSeq(e.data, 1, e.ret), FALSE, e.pos)
           [] e.op = "read" -> [d EXCEPT !.fd[e.fd].pos = @ + e.ret]
           [] e.op = "seek" -> [d EXCEPT !.fd[e.fd].pos = e.ret]
           [] e.op = "cut" -> [d EXCEPT !.data[d.fd[e.fd].file] = Cut(@, e.pos)]
           [] e.op = "truncate" -> [d EXCEPT !.data[d.dir[e.path]] = Cut(@, e.pos)]
           [] e.op = "copy" ->
                LET x == d.fd[e.from] IN
                [Wrote(d, e.fd, SubSeq(d.data[x.file], x.pos + 1, x.pos + e.ret), TRUE, d.fd[e.fd].pos)
                    EXCEPT !.fd[e.from].pos = @ + e.ret]
           [] e.op = "feed" -> Wrote(d, e.fd, e.data, TRUE, d.fd[e.fd].pos)
           [] e.op = "dup" -> [d EXCEPT !.fd = With(@, e.ret, d.fd[e.fd])]
           [] e.op = "close" -> [d EXCEPT !.fd = Without(@, e.fd)]
           [] e.op = "rename" -> [d EXCEPT !.dir = With(Without(@, e.path), e.to, d.dir[e.path])]
           [] e.op = "link" -> [d EXCEPT !.dir = With(@, e.to, d.dir[e.path])]
           [] e.op = "unlink" -> [d EXCEPT !.dir = Without(@, e.path)]
           [] OTHER -> d
=============================================================================
