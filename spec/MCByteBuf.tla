------------------------------ MODULE MCByteBuf ------------------------------
EXTENDS ByteBuf, MCBase
CONSTANTS MaxLen
Lits == {<<>>, <<1>>, <<0>>, <<7, 9>>}
Do(w) == op' = w
MCInit == BufInit /\ op = <<"reset">>
MCNext == \E o \in Objs :
    \/ \E k \in {0, 1} : New(o, TRUE) /\ Do(<<"new", o, k>>)
    \/ Exists(o) /\ Release(o) /\ Do(<<"release", o>>)
    \/ Clear(o) /\ Do(<<"clear", o>>)
    \/ \E v \in Lits : Insert(o, v, TRUE) /\ Do(<<"insert", o, "obj", v>>)
    \/ \E v \in {<<3>>, <<250>>} : Insert(o, v, TRUE) /\ Do(<<"insert", o, "byte", v>>)
    \/ \E v \in {<<>>, <<5>>} : Insert(o, v \o <<0>>, TRUE) /\ Do(<<"insert", o, "cstr", v>>)
    \/ \E v \in {<<1, 0>>} : Insert(o, v, TRUE) /\ Do(<<"insert", o, "i16", v>>)
    \/ \E v \in {<<8, 8>>} : Insert(o, v, TRUE) /\ Do(<<"insert", o, "filename", v>>)
    \/ Insert(o, <<>>, FALSE) /\ Do(<<"insert", o, "nofile", <<>>>>)
    \/ \E n \in {0, 2} : Zeros(o, n, TRUE) /\ Do(<<"zeros", o, n>>)
    \/ \E i \in 0..MaxLen, n \in {0, 1, 2, -1}, r \in BOOLEAN : Del(o, i, n, r) /\ Do(<<"del", o, i, n>>)
    \/ \E p \in Objs : AppendBuf(o, p, Bytes(p) # <<>>) /\ Do(<<"append", o, IF o = p THEN 1 ELSE 0>>)
    \/ \E p \in Objs : CopyBuf(o, p, Bytes(p) # <<>>) /\ Do(<<"copy", o, IF o = p THEN 1 ELSE 0>>)
    \/ ToFile(o, Bytes(o), TRUE) /\ Do(<<"to_file", o>>)
MCSpec == MCInit /\ [][MCNext]_<<buf, op>>
Bound == Len(Bytes(1)) <= MaxLen /\ Len(Bytes(2)) <= 1
View == buf
Emit == Edge(buf, buf')
\* an accepted insertion only ever extends the string
Extends == [][\A o \in Objs : (op'[1] \in {"insert", "zeros", "append"} /\ op'[2] = o)
                 => (Len(Bytes(o)') >= Len(Bytes(o)) /\ SubSeq(Bytes(o)', 1, Len(Bytes(o))) = Bytes(o))]_<<buf, op>>
==============================================================================
