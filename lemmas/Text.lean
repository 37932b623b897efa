/-
Facts about joined texts used as lemmas by the contracts of pkg/etx (gover/etxmodel.py, join_facts).
Texts are lists of characters; `joinA c n sep` is the join of the first n items of c, as the contracts
define it by recursion on n; the differing index that the contracts speak of is the witness of the
negated hypothesis here.
-/
import Mathlib.Tactic

namespace Text
variable {α : Type*}

/-- the contracts' definition -/
def joinA (c : ℕ → List α) (sep : List α) : ℕ → List α
  | 0 => []
  | 1 => c 0
  | n + 2 => joinA c sep (n + 1) ++ sep ++ c (n + 1)

theorem def_succ (c : ℕ → List α) (sep : List α) (n : ℕ) :
    joinA c sep (n + 1) = if n = 0 then c 0 else joinA c sep n ++ sep ++ c n := by
  cases n with
  | zero => simp [joinA]
  | succ n => simp [joinA]

theorem def_succ_nil (c : ℕ → List α) (n : ℕ) : joinA c [] (n + 1) = joinA c [] n ++ c n := by
  cases n with
  | zero => simp [joinA]
  | succ n => simp [joinA]

theorem join_ext (c a : ℕ → List α) (sep : List α) (n : ℕ) (h : ∀ k < n, c k = a k) :
    joinA c sep n = joinA a sep n := by
  induction n with
  | zero => rfl
  | succ n ih =>
    rw [def_succ, def_succ, ih (fun k hk => h k (by omega)), h n (by omega)]
    rcases Nat.eq_zero_or_pos n with rfl | hn
    · simp [h 0 (by omega)]
    · simp [Nat.pos_iff_ne_zero.mp hn]

theorem join_add (c : ℕ → List α) (m n : ℕ) :
    joinA c [] (m + n) = joinA c [] m ++ joinA (fun k => c (m + k)) [] n := by
  induction n with
  | zero => simp [joinA]
  | succ n ih => rw [← Nat.add_assoc, def_succ_nil, def_succ_nil, ih, List.append_assoc]

/-- m items, then those of a, then j items -/
theorem join_mid (c a : ℕ → List α) (m n j : ℕ) (h : ∀ k < n, c (m + k) = a k) :
    joinA c [] (m + n + j) = joinA c [] m ++ joinA a [] n ++ joinA (fun k => c (m + n + k)) [] j := by
  rw [join_add, join_add, join_ext (fun k => c (m + k)) a [] n h]

theorem join_trail (x y : ℕ → List α) (s : List α) (n : ℕ) (hn : 1 ≤ n) (h : ∀ k < n, x k ++ s = y k) :
    joinA y [] n = joinA x s n ++ s := by
  induction n, hn using Nat.le_induction with
  | base => simp [joinA, h 0 (by omega)]
  | succ n hn ih =>
    rw [def_succ_nil, ih (fun k hk => h k (by omega)), def_succ, if_neg (by omega), ← h n (by omega)]
    simp [List.append_assoc]

theorem join_lead (x y : ℕ → List α) (s : List α) (n : ℕ) (hn : 1 ≤ n) (h : ∀ k < n, s ++ x k = y k) :
    joinA y [] n = s ++ joinA x s n := by
  induction n, hn using Nat.le_induction with
  | base => simp [joinA, h 0 (by omega)]
  | succ n hn ih =>
    rw [def_succ_nil, ih (fun k hk => h k (by omega)), def_succ, if_neg (by omega), ← h n (by omega)]
    simp [List.append_assoc]

end Text
