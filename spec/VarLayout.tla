----------------------------- MODULE VarLayout ------------------------------
(* The store of decision-variable blocks of the planner's optimisation        *)
(* problems: blocks are declared one after another, each gets a contiguous    *)
(* range of indices (column-major), has a type, bounds and a guess per        *)
(* element, and single columns can be frozen to their guess.                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES blocks,   \* sequence of blocks in declaration order
          next      \* first index not given to any block
vars == <<blocks, next>>

\* Parameter patterns: scalar, per-row vector, per-element matrix.
Pat(kind, v, r, c) == CASE kind = "s" -> v
                        [] kind = "v" -> v + 7 * r
                        [] kind = "m" -> v + 7 * r + 31 * c
                        [] kind = "n" -> 0          \* not given
Mat(kind, v, rows, cols) == [i \in 1..rows |-> [j \in 1..cols |-> Pat(kind, v, i - 1, j - 1)]]

Init == blocks = <<>> /\ next = 0

Declare(rows, cols, type, bk, lb, ub, gk, g) ==
  /\ blocks' = Append(blocks, [start |-> next, rows |-> rows, cols |-> cols, type |-> type,
                               lb |-> Mat(bk, lb, rows, cols), ub |-> Mat(bk, ub, rows, cols),
                               guess |-> Mat(gk, g, rows, cols)])
  /\ next' = next + rows * cols

SetGuess(b, v) ==
  /\ b \in 1..Len(blocks)
  /\ blocks' = [blocks EXCEPT ![b].guess = Mat("m", v, blocks[b].rows, blocks[b].cols)]
  /\ UNCHANGED next

SetCol(M, j, f(_)) == [i \in DOMAIN M |-> [k \in DOMAIN M[i] |-> IF k = j THEN f(i) ELSE M[i][k]]]

\* freeze column j to its current guess
Freeze(b, j) ==
  /\ b \in 1..Len(blocks) /\ j \in 1..blocks[b].cols
  /\ LET G(i) == blocks[b].guess[i][j] IN
       blocks' = [blocks EXCEPT ![b].lb = SetCol(blocks[b].lb, j, G), ![b].ub = SetCol(blocks[b].ub, j, G)]
  /\ UNCHANGED next

\* give column j a value (scalar or vector pattern) and freeze it
SetFreeze(b, j, kind, v) ==
  /\ b \in 1..Len(blocks) /\ j \in 1..blocks[b].cols
  /\ LET G(i) == Pat(kind, v, i - 1, 0) IN
       blocks' = [blocks EXCEPT ![b].guess = SetCol(blocks[b].guess, j, G),
                                ![b].lb = SetCol(blocks[b].lb, j, G), ![b].ub = SetCol(blocks[b].ub, j, G)]
  /\ UNCHANGED next

Clamp(x, n) == IF x >= n THEN n - 1 ELSE IF x <= 0 THEN 0 ELSE x
Id(b, r, c) == blocks[b].start + Clamp(c, blocks[b].cols) * blocks[b].rows + Clamp(r, blocks[b].rows)

IdsOf(b) == { Id(b, r, c) : r \in 0..(blocks[b].rows - 1), c \in 0..(blocks[b].cols - 1) }

\* The property
Bijection ==
  /\ UNION { IdsOf(b) : b \in 1..Len(blocks) } = 0..(next - 1)
  /\ \A b \in 1..Len(blocks) : Cardinality(IdsOf(b)) = blocks[b].rows * blocks[b].cols
InDeclarationOrder ==
  \A b \in 1..Len(blocks) - 1 : \A i \in IdsOf(b), j \in IdsOf(b + 1) : i < j
Nearest ==
  \A b \in 1..Len(blocks) : \A r \in -2..6, c \in -2..6 : Id(b, r, c) \in IdsOf(b)
=============================================================================
