------------------------------ MODULE VTrace ------------------------------
(* Skeleton of every trace specification: the recorded events are consumed one by one, the state of
   the specification is a function of the operations requested, and what the code reported is judged
   against it.  A discrepancy is printed (one line) and checking goes on, so one run judges every
   episode of a shard.                                                                            *)
EXTENDS VUtil
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(tag, ep, i, detail) == PrintT("FAIL|" \o tag \o "|" \o ep \o "|" \o ToString(i) \o "|" \o detail)
==========================================================================
