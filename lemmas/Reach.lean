/-
Facts about reachability used as lemmas by the contracts of pkg/dag.
A relation `a : K → K → Prop` is an edge table; `Reach a` is its transitive closure (paths of at
least one edge); `dist a x y` is the length of a shortest path.  Each theorem `lem_<name>` is the
statement that gover/dagmodel.py (method `lemma`) asserts for the lemma `<name>`; the Skolem functions
there (lwa, lwb, step, ...) are the witnesses of the existentials here.
Edge tables are finite (Go maps are), which only `lem_root` and `lem_reduce` use.
-/
import Mathlib.Logic.Relation
import Mathlib.Data.Set.Finite.Basic
import Mathlib.Data.Set.Finite.Lattice
import Mathlib.Order.WellFounded
import Mathlib.Data.Nat.Find
import Mathlib.Data.Fintype.EquivFin
import Mathlib.Data.Set.Card
import Mathlib.Order.Interval.Finset.Basic
import Mathlib.Data.Int.Interval
import Mathlib.Tactic

open Relation
namespace Dag
variable {K : Type*}

abbrev Reach (a : K → K → Prop) := TransGen a

/-- the axioms given for `reach` -/
theorem ax_step (r : K → K → Prop) (x y : K) : r x y → Reach r x y := TransGen.single
theorem ax_trans (r : K → K → Prop) (x y z : K) : Reach r x y → Reach r y z → Reach r x z := TransGen.trans

/-- `indirect`: a first edge and then a path -/
def Indirect (r : K → K → Prop) (x y : K) : Prop := ∃ z, r x z ∧ Reach r z y

theorem lem_ext (a b : K → K → Prop) : a = b ∨ ∃ x y, ¬ (a x y = b x y) := by
  by_cases h : a = b
  · exact Or.inl h
  · right; by_contra hc; push Not at hc; exact h (funext fun x => funext fun y => hc x y)

theorem lem_mono (a b : K → K → Prop) (h : ∀ x y, a x y → b x y) : ∀ x y, Reach a x y → Reach b x y :=
  by intro x y r; induction r with
  | single e => exact TransGen.single (h _ _ e)
  | tail _ e ih => exact TransGen.tail ih (h _ _ e)

theorem lem_conv (a b : K → K → Prop) (h : ∀ x y, a x y = b y x) : ∀ x y, Reach a x y = Reach b y x := by
  intro x y
  apply propext; constructor
  · intro r; induction r with
    | single e => exact TransGen.single (by rw [h] at e; exact e)
    | tail _ e ih => exact TransGen.head (by rw [h] at e; exact e) ih
  · intro r; induction r with
    | single e => exact TransGen.single (by rw [h]; exact e)
    | tail _ e ih => exact TransGen.head (by rw [h]; exact e) ih

theorem local_aux (a b : K → K → Prop) (x : K)
    (h : ∀ w v, (w = x ∨ Reach a x w) → (a w v = b w v)) : ∀ y, Reach a x y = Reach b x y := by
  intro y; apply propext
  have f : ∀ y, Reach a x y → Reach b x y := by
    intro y r; induction r with
    | single e => exact TransGen.single (by rw [← h _ _ (Or.inl rfl)]; exact e)
    | tail r e ih => exact TransGen.tail ih (by rw [← h _ _ (Or.inr r)]; exact e)
  have g : ∀ y, Reach b x y → Reach a x y := by
    intro y r; induction r with
    | single e => exact TransGen.single (by rw [h _ _ (Or.inl rfl)]; exact e)
    | tail r e ih => exact TransGen.tail ih (by rw [h _ _ (Or.inr ih)]; exact e)
  exact ⟨f y, g y⟩

theorem lem_local [Nonempty K] (a b : K → K → Prop) (x : K) : ∃ w v, ∀ y,
    (Reach a x y = Reach b x y) ∨ ((w = x ∨ Reach a x w) ∧ ¬ (a w v = b w v)) := by
  by_cases h : ∀ w v, (w = x ∨ Reach a x w) → (a w v = b w v)
  · exact ⟨x, x, fun y => Or.inl (local_aux a b x h y)⟩
  · push Not at h; obtain ⟨w, v, h1, h2⟩ := h; exact ⟨w, v, fun _ => Or.inr ⟨h1, h2⟩⟩

theorem lem_addedge (a b : K → K → Prop) (p q : K) (h : ∀ x y, b x y = (a x y ∨ (x = p ∧ y = q))) :
    ∀ x y, Reach b x y = (Reach a x y ∨ ((x = p ∨ Reach a x p) ∧ (y = q ∨ Reach a q y))) := by
  have m : ∀ x y, Reach a x y → Reach b x y := fun x y => lem_mono a b (fun x y e => by rw [h]; exact Or.inl e) x y
  have e : Reach b p q := TransGen.single (by rw [h]; exact Or.inr ⟨rfl, rfl⟩)
  intro x y; apply propext; constructor
  · intro r; induction r with
    | single r =>
      rw [h] at r; rcases r with r | ⟨r, s⟩
      · exact Or.inl (TransGen.single r)
      · exact Or.inr ⟨Or.inl r, Or.inl s⟩
    | tail _ r ih =>
      rw [h] at r
      rcases r with r | ⟨r, s⟩
      · rcases ih with ih | ⟨i, j⟩
        · exact Or.inl (TransGen.tail ih r)
        · refine Or.inr ⟨i, Or.inr ?_⟩
          rcases j with j | j
          · subst j; exact TransGen.single r
          · exact TransGen.tail j r
      · rcases ih with ih | ⟨i, _⟩
        · exact Or.inr ⟨Or.inr (r ▸ ih), Or.inl s⟩
        · exact Or.inr ⟨i, Or.inl s⟩
  · rintro (r | ⟨i, j⟩)
    · exact m _ _ r
    · have l : x = p ∨ Reach b x p := i.imp id (m _ _)
      have u : y = q ∨ Reach b q y := j.imp id (m _ _)
      rcases l with l | l <;> rcases u with u | u
      · subst l; subst u; exact e
      · subst l; exact e.trans u
      · subst u; exact l.trans e
      · exact (l.trans e).trans u

theorem lem_unfold (a : K → K → Prop) (x y : K) : ∃ w, Reach a x y → (a x w ∧ (w = y ∨ Reach a w y)) := by
  by_cases r : Reach a x y
  · rcases TransGen.head'_iff.1 r with ⟨w, e, s⟩
    refine ⟨w, fun _ => ⟨e, ?_⟩⟩
    rcases reflTransGen_iff_eq_or_transGen.1 s with s | s
    · exact Or.inl s.symm
    · exact Or.inr s
  · exact ⟨x, fun h => absurd h r⟩

theorem lem_ends (a : K → K → Prop) (x y : K) : ∃ l f, Reach a x y → (a l y ∧ a x f) := by
  by_cases r : Reach a x y
  · rcases TransGen.head'_iff.1 r with ⟨f, e, _⟩
    rcases TransGen.tail'_iff.1 r with ⟨l, _, g⟩
    exact ⟨l, f, fun _ => ⟨g, e⟩⟩
  · exact ⟨x, x, fun h => absurd h r⟩

/-- paths of a given length -/
inductive Path (a : K → K → Prop) (x : K) : ℕ → K → Prop
  | one {y} : a x y → Path a x 1 y
  | snoc {n y z} : Path a x n y → a y z → Path a x (n + 1) z

theorem path_pos {a : K → K → Prop} {x : K} {n : ℕ} {y : K} (p : Path a x n y) : 1 ≤ n := by
  cases p <;> omega
theorem path_reach {a : K → K → Prop} {x : K} {n : ℕ} {y : K} (p : Path a x n y) : Reach a x y := by
  induction p with
  | one e => exact TransGen.single e
  | snoc _ e ih => exact TransGen.tail ih e
theorem reach_path {a : K → K → Prop} {x y : K} (r : Reach a x y) : ∃ n, Path a x n y := by
  induction r with
  | single e => exact ⟨1, Path.one e⟩
  | tail _ e ih => obtain ⟨n, p⟩ := ih; exact ⟨n + 1, Path.snoc p e⟩

noncomputable def dist (a : K → K → Prop) (x y : K) : ℕ := sInf {n | Path a x n y}

theorem dist_path {a : K → K → Prop} {x y : K} (r : Reach a x y) : Path a x (dist a x y) y := Nat.sInf_mem (reach_path r)
theorem dist_le {a : K → K → Prop} {x y : K} {n : ℕ} (p : Path a x n y) : dist a x y ≤ n := Nat.sInf_le p

theorem lem_distance (a : K → K → Prop) (x : K) :
    (∀ y, Reach a x y → 1 ≤ dist a x y ∧ ((dist a x y = 1) = a x y)) ∧
    (∀ y, a x y → dist a x y = 1) ∧
    (∀ y z, Reach a x y ∧ a y z → dist a x z ≤ dist a x y + 1) ∧
    (∀ y, ∃ w, Reach a x y ∧ 2 ≤ dist a x y → a w y ∧ Reach a x w ∧ dist a x w + 1 = dist a x y) := by
  have two : ∀ y, a x y → dist a x y = 1 := by
    intro y e
    have := dist_le (Path.one e); have := path_pos (dist_path (TransGen.single e)); omega
  refine ⟨fun y r => ⟨path_pos (dist_path r), propext ⟨fun h => ?_, two y⟩⟩, two, fun y z ⟨r, e⟩ => dist_le (Path.snoc (dist_path r) e), fun y => ?_⟩
  · have p := dist_path r; rw [h] at p
    cases p with
    | one e => exact e
    | snoc q _ => exact absurd (path_pos q) (by omega)
  · by_cases h : Reach a x y ∧ 2 ≤ dist a x y
    · have p := dist_path h.1
      generalize hn : dist a x y = n at p
      cases p with
      | one _ => omega
      | @snoc m w _ q e =>
        have l := dist_le q
        have u := dist_le (Path.snoc (dist_path (path_reach q)) e)
        exact ⟨w, fun _ => ⟨e, path_reach q, by omega⟩⟩
    · exact ⟨x, fun h2 => absurd h2 h⟩

theorem lem_cut (a : K → K → Prop) (x : K) (S Q : K → Prop) :
    (∃ p q, (p = x ∨ (S p ∧ ¬ Q p)) ∧ a p q ∧ ¬ S q) ∨
    (∀ y, ∃ w, (Reach a x y ∧ ¬ S y) → (Q w ∧ Reach a x w ∧ dist a x w < dist a x y)) := by
  by_cases h : ∃ p q, (p = x ∨ (S p ∧ ¬ Q p)) ∧ a p q ∧ ¬ S q
  · exact Or.inl h
  · right
    push Not at h
    have main : ∀ n y, Path a x n y → ¬ S y → ∃ w, Q w ∧ Reach a x w ∧ dist a x w < n := by
      intro n y p; induction p with
      | one e => intro ns; exact absurd (h x _ (Or.inl rfl) e) ns
      | @snoc n u z p e ih =>
        intro ns
        by_cases su : S u
        · by_cases qu : Q u
          · exact ⟨u, qu, path_reach p, by have := dist_le p; omega⟩
          · exact absurd (h u z (Or.inr ⟨su, qu⟩) e) ns
        · obtain ⟨w, i, j, k⟩ := ih su; exact ⟨w, i, j, by omega⟩
    intro y
    by_cases c : Reach a x y ∧ ¬ S y
    · obtain ⟨w, i⟩ := main _ y (dist_path c.1) c.2; exact ⟨w, fun _ => i⟩
    · exact ⟨x, fun k => absurd k c⟩

theorem lem_closed (a : K → K → Prop) (S : K → Prop) :
    (∃ x y, S x ∧ a x y ∧ ¬ S y) ∨ (∀ p q, (S p ∧ Reach a p q) → S q) := by
  by_cases h : ∃ x y, S x ∧ a x y ∧ ¬ S y
  · exact Or.inl h
  · right; push Not at h
    rintro p q ⟨s, r⟩
    induction r with
    | single e => exact h _ _ s e
    | tail _ e ih => exact h _ _ ih e

/-- a finite relation without cycles is well-founded (and so is its converse) -/
theorem wf_of_finite (a : K → K → Prop) (fin : Set.Finite {p : K × K | a p.1 p.2}) (ac : ∀ x, ¬ Reach a x x) :
    WellFounded (Reach a) := by
  have tr : IsTrans K (Reach a) := ⟨fun _ _ _ => TransGen.trans⟩
  have so : IsStrictOrder K (Reach a) := { irrefl := ac, trans := fun _ _ _ => TransGen.trans }
  -- everything that has a predecessor lies in a finite set
  let T : Set K := Prod.snd '' {p : K × K | a p.1 p.2} ∪ Prod.fst '' {p : K × K | a p.1 p.2}
  have tf : T.Finite := (fin.image _).union (fin.image _)
  have inT : ∀ x y, Reach a x y → x ∈ T ∧ y ∈ T := by
    intro x y r
    obtain ⟨l, f, k⟩ := lem_ends a x y
    obtain ⟨e, g⟩ := k r
    exact ⟨Or.inr ⟨(x, f), g, rfl⟩, Or.inl ⟨(l, y), e, rfl⟩⟩
  have w := Set.Finite.wellFoundedOn (r := Reach a) tf
  rw [Set.wellFoundedOn_iff] at w
  refine Subrelation.wf (r := fun x y => Reach a x y ∧ x ∈ T ∧ y ∈ T) ?_ w
  intro x y r; exact ⟨r, inT x y r⟩

theorem reach_conv_cycle (a : K → K → Prop) (ac : ∀ x, ¬ Reach a x x) : ∀ x, ¬ Reach (fun x y => a y x) x x := by
  intro x r
  have := lem_conv (fun x y => a y x) a (fun _ _ => rfl) x x
  rw [this] at r; exact ac x r

/-- how many vertices are reached from x -/
noncomputable def rcard (a : K → K → Prop) (x : K) : ℕ := Set.ncard {y | Reach a x y}

theorem reach_finite (a : K → K → Prop) (fin : Set.Finite {p : K × K | a p.1 p.2}) (x : K) : Set.Finite {y | Reach a x y} := by
  refine (fin.image Prod.snd).subset ?_
  intro y r
  obtain ⟨l, f, k⟩ := lem_ends a x y
  exact ⟨(l, y), (k r).1, rfl⟩

theorem lem_below (a : K → K → Prop) (fin : Set.Finite {p : K × K | a p.1 p.2}) :
    (∃ c, Reach a c c) ∨ ∀ x y, a x y → rcard a y < rcard a x := by
  by_cases h : ∃ c, Reach a c c
  · exact Or.inl h
  · right; push Not at h
    intro x y e
    refine Set.ncard_lt_ncard ?_ (reach_finite a fin x)
    refine ⟨fun z r => TransGen.head e r, fun s => h y (s (TransGen.single e))⟩

theorem lem_room (a : K → K → Prop) (fin : Set.Finite {p : K × K | a p.1 p.2}) (x : K) (q : ℤ → K) (n : ℤ) :
    (∃ i j, 0 ≤ i ∧ i < j ∧ j < n ∧ q i = q j) ∨ (∃ m, 0 ≤ m ∧ m < n ∧ ¬ Reach a x (q m)) ∨ n ≤ (rcard a x : ℤ) := by
  by_contra hc
  push Not at hc
  obtain ⟨h1, h2, h3⟩ := hc
  have inj : Set.InjOn q (Set.Ico 0 n) := by
    intro i hi j hj e
    rcases lt_trichotomy i j with l | l | l
    · exact absurd e (h1 i j hi.1 l hj.2)
    · exact l
    · exact absurd e.symm (h1 j i hj.1 l hi.2)
  have sub : q '' Set.Ico 0 n ⊆ {y | Reach a x y} := by
    rintro _ ⟨m, hm, rfl⟩; exact h2 m hm.1 hm.2
  have le := Set.ncard_le_ncard sub (reach_finite a fin x)
  rw [Set.InjOn.ncard_image inj] at le
  have c : (Set.Ico (0:ℤ) n).ncard = n.toNat := by
    rw [← Finset.coe_Ico, Set.ncard_coe_finset, Int.card_Ico]; simp
  rw [c] at le
  have : (rcard a x : ℤ) < n := h3
  unfold rcard at this
  omega

theorem lem_root (a : K → K → Prop) (fin : Set.Finite {p : K × K | a p.1 p.2}) :
    (∃ c, Reach a c c) ∨ (∀ y, ∃ r, (r = y ∨ Reach a r y) ∧ ∀ z, ¬ a z r) := by
  by_cases h : ∃ c, Reach a c c
  · exact Or.inl h
  · right; push Not at h
    have w := wf_of_finite a fin h
    intro y
    induction y using w.induction with
    | _ y ih =>
      by_cases hz : ∃ z, a z y
      · obtain ⟨z, e⟩ := hz
        obtain ⟨r, i, j⟩ := ih z (TransGen.single e)
        refine ⟨r, Or.inr ?_, j⟩
        rcases i with i | i
        · subst i; exact TransGen.single e
        · exact TransGen.tail i e
      · push Not at hz; exact ⟨y, Or.inl rfl, hz⟩

theorem lem_reduce (a b : K → K → Prop) (fin : Set.Finite {p : K × K | a p.1 p.2}) :
    (∃ c, Reach a c c) ∨ (∃ x y, (b x y ∧ ¬ a x y) ∨ (a x y ∧ ¬ b x y ∧ ¬ Indirect a x y)) ∨
    (∀ x y, Reach a x y = Reach b x y) := by
  by_cases h : ∃ c, Reach a c c
  · exact Or.inl h
  right
  by_cases k : ∃ x y, (b x y ∧ ¬ a x y) ∨ (a x y ∧ ¬ b x y ∧ ¬ Indirect a x y)
  · exact Or.inl k
  right
  push Not at h k
  have sub : ∀ x y, b x y → a x y := fun x y e => (k x y).1 e
  have ind : ∀ x y, a x y → ¬ b x y → Indirect a x y := fun x y e n => (k x y).2 e n
  -- induction on the pair: descend towards the target in the well-founded converse order
  have fin' : Set.Finite {p : K × K | (fun x y => a y x) p.1 p.2} := by
    have : {p : K × K | (fun x y => a y x) p.1 p.2} = Prod.swap '' {p : K × K | a p.1 p.2} := by
      ext ⟨x, y⟩; constructor
      · intro e; exact ⟨(y, x), e, rfl⟩
      · rintro ⟨⟨u, v⟩, e, q⟩; simp only [Prod.swap_prod_mk, Prod.mk.injEq] at q; obtain ⟨rfl, rfl⟩ := q; exact e
    rw [this]; exact fin.image _
  have wd := wf_of_finite a fin h                                   -- Reach a u y: u smaller than y
  have wu := wf_of_finite (fun x y => a y x) fin' (reach_conv_cycle a h)   -- z reachable from x: z smaller than x
  have up : ∀ x z, Reach a x z → Reach (fun x y => a y x) z x := by
    intro x z r; rw [lem_conv (fun x y => a y x) a (fun _ _ => rfl)]; exact r
  have main : ∀ x y, Reach a x y → Reach b x y := by
    intro x
    induction x using wu.induction with
    | _ x ihx =>
      intro y
      induction y using wd.induction with
      | _ y ihy =>
        intro r
        rcases TransGen.head'_iff.1 r with ⟨w, e, s⟩
        have rw' : w = y ∨ Reach a w y := by
          rcases reflTransGen_iff_eq_or_transGen.1 s with s | s
          · exact Or.inl s.symm
          · exact Or.inr s
        -- it is enough to treat an edge x → y and a longer path separately
        have split : ∀ z, Reach a x z → Reach a z y → Reach b x y := fun z r1 r2 =>
          (ihy z r2 r1).trans (ihx z (up x z r1) y r2)
        rcases rw' with q | q
        · subst q
          by_cases hb : b x w
          · exact TransGen.single hb
          · obtain ⟨z, e1, r2⟩ := ind x w e hb
            exact split z (TransGen.single e1) r2
        · exact split w (TransGen.single e) q
  intro x y; exact propext ⟨main x y, lem_mono b a sub x y⟩

end Dag
