--------------------------------- MODULE ViewMC ---------------------------------
EXTENDS View
Swap == [k \in {"a", "b"} |-> IF k = "a" THEN "b" ELSE "a"]
Id == [k \in {"a", "b"} |-> k]
Data == {<<"d", "1", 1>>, <<"d", "2", 2>>}
All == {<<"d", "1", 1>>, <<"p", "a">>, <<"p", "b">>}
Small == {<<"d", "1", 2>>, <<"p", "a">>}
One == {<<"d", "1", 1>>, <<"d", "2", 1>>, <<"p", "a">>}
Mods == {"add", "del"}
ModsSearch == {"add", "del", "search"}
Every == {"add", "del", "search", "compact"}
=================================================================================
