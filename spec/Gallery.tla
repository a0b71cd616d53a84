------------------------------- MODULE Gallery -------------------------------
(* Several landmark groups of one image in one picture, or in a picture each: *)
(* every group is drawn where its landmarks are, in the order given, in its   *)
(* own style and under its own name.  A style is one value for all groups, a  *)
(* list with one value for all, or a list with a value for each; lists of any *)
(* other length are refused.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Groups,     \* groups the image has
          Styles,     \* style arguments
          MaxShown, MaxStyled

VARIABLES shown,      \* groups asked for, in order
          styled,     \* sequence of <<argument, way of giving it>>
          how, done
vars == <<shown, styled, how, done>>
Ways == {"one", "single", "each", "wrong"}
\* no labels, one list of labels for all groups, a list for each, lists of
\* another number, no list
Labels == {"none", "one", "each", "wrong", "word"}

Init == /\ shown = <<>> /\ styled = <<>> /\ done = FALSE
        /\ how \in [apart : BOOLEAN, image : BOOLEAN, named : BOOLEAN, numbered : BOOLEAN, labels : Labels]
Show == /\ ~done /\ styled = <<>> /\ Len(shown) < MaxShown
        /\ \E g \in 1..Groups : (\A i \in 1..Len(shown) : shown[i] # g) /\ shown' = Append(shown, g)
        /\ UNCHANGED <<styled, how, done>>
\* (a style is given once)
Style == /\ ~done /\ shown # <<>>
         /\ Len(styled) < MaxStyled - (IF how.numbered \/ how.labels # "none" THEN 1 ELSE 0)
         /\ \E s \in 1..Len(Styles), w \in Ways :
              /\ \A i \in 1..Len(styled) : styled[i][1] < s
              /\ styled' = Append(styled, <<s, w>>)
         /\ UNCHANGED <<shown, how, done>>
Draw == /\ ~done /\ shown # <<>> /\ done' = TRUE /\ UNCHANGED <<shown, styled, how>>
Next == Show \/ Style \/ Draw
Spec == Init /\ [][Next]_vars

Wrong == \/ how.labels \in {"wrong", "word"}
         \/ \E i \in 1..Len(styled) : styled[i][2] = "wrong"
\* which value of the argument the k-th group is drawn with (0: the default)
Value(s, k) == LET i == {i \in 1..Len(styled) : styled[i][1] = s} IN
   IF i = {} THEN 0 ELSE LET w == styled[CHOOSE j \in i : TRUE][2] IN IF w = "each" THEN k ELSE 1
\* the parts of a group that are shown: everything, or the parts labelled so
Parts(k) == CASE how.labels = "one" -> <<"tail">>
              [] how.labels = "each" -> (IF k = 1 THEN <<"tail">> ELSE IF k = 2 THEN <<"head", "tail">> ELSE <<"head">>)
              [] OTHER -> <<>>
Item(k) == [group |-> shown[k], parts |-> Parts(k), value |-> [s \in 1..Len(Styles) |-> Value(s, k)]]
Expected == [shown |-> shown, styled |-> [i \in 1..Len(styled) |-> [s |-> Styles[styled[i][1]], w |-> styled[i][2]]], how |-> how,
             answer |-> IF Wrong THEN "ValueError" ELSE "picture",
             pictures |-> IF how.apart THEN Len(shown) ELSE 1,
             items |-> IF Wrong THEN <<>> ELSE [k \in 1..Len(shown) |-> Item(k)]]
\* one value reaches everybody
Shared == (done /\ ~Wrong) => \A i \in 1..Len(styled) : styled[i][2] # "each" =>
   \A j, k \in 1..Len(shown) : Item(j).value[styled[i][1]] = Item(k).value[styled[i][1]]
Emit == done => CSVWrite("%1$s", <<ToJson(Expected)>>, IOEnv.OUT)
=============================================================================
