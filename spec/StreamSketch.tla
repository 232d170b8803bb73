------------------------------ MODULE StreamSketch ------------------------------
\* The abstract state machine of streaming binning.  A sketch is the bag of the
\* records it received: a vector with, per token (clean value or category,
\* special code, missing), the number of non-events and events.  Everything a
\* sketch reports is a function of that bag, so neither the cutting of the stream
\* into chunks nor the order of additions and merges can matter.
EXTENDS Num
VAdd(u, v) == [t \in 1..Len(u) |-> <<u[t][1] + v[t][1], u[t][2] + v[t][2]>>]
VZero(m)   == [t \in 1..m |-> <<0, 0>>]
VSum(v)    == <<Sum([t \in 1..Len(v) |-> v[t][1]]), Sum([t \in 1..Len(v) |-> v[t][2]])>>
\* the actions, as functions of the state (st.bags: bag of every sketch,
\* st.fed: how many chunks a sketch received, its own or through merges)
StInit(ns, m)  == [bags |-> [i \in 1..ns |-> VZero(m)], fed |-> [i \in 1..ns |-> 0]]
DoAdd(st, i, ch)  == [bags |-> [st.bags EXCEPT ![i] = VAdd(@, ch)], fed |-> [st.fed EXCEPT ![i] = @ + 1]]
DoMerge(st, i, j) == [bags |-> [st.bags EXCEPT ![i] = VAdd(@, st.bags[j])], fed |-> [st.fed EXCEPT ![i] = @ + st.fed[j]]]
\* what a sketch reports about its stream
Counters(bag) == LET s == VSum(bag) IN <<s[1] + s[2], s[1], s[2]>>
=================================================================================
