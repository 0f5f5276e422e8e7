import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Data.Int.Cast.Lemmas
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Tactic.Linarith

/-! The lemma schemata that `vcg/prover.py` instantiates (`_unary`, `_binary`, `_cast_pair`), for every body and every length.
A reduction `SUM f n` runs over the integers 0 ≤ j < n, and is empty when n ≤ 0. -/

set_option linter.unusedSectionVars false

open Finset

namespace Schemata

variable {R : Type} [CommRing R] [LinearOrder R] [IsStrictOrderedRing R]

/-- `SUM` (R = ℝ) and `SUMI` (R = ℤ) -/
def SUM {R : Type} [CommRing R] (f : ℤ → R) (n : ℤ) : R := ∑ j ∈ range n.toNat, f (j : ℤ)
def PROD {R : Type} [CommRing R] (f : ℤ → R) (n : ℤ) : R := ∏ j ∈ range n.toNat, f (j : ℤ)

theorem mem_rg {j : ℕ} {n : ℤ} (h : j ∈ range n.toNat) : 0 ≤ (j : ℤ) ∧ (j : ℤ) < n := by
  have := mem_range.mp h
  omega

theorem sum_empty (f : ℤ → R) {n : ℤ} (h : n ≤ 0) : SUM f n = 0 := by
  simp [SUM, Int.toNat_of_nonpos h]

theorem prod_empty (f : ℤ → R) {n : ℤ} (h : n ≤ 0) : PROD f n = 1 := by
  simp [PROD, Int.toNat_of_nonpos h]

theorem sum_snoc (f g : ℤ → R) {n m : ℤ} (h : n = m + 1) (hm : 0 ≤ m) (hf : ∀ j, 0 ≤ j → j < m → f j = g j) :
    SUM f n = SUM g m + f m := by
  have e : n.toNat = m.toNat + 1 := by omega
  have e' : ((m.toNat : ℕ) : ℤ) = m := by omega
  unfold SUM
  rw [e, sum_range_succ, e']
  congr 1
  exact sum_congr rfl fun j hj => hf _ (mem_rg hj).1 (mem_rg hj).2

theorem prod_snoc (f g : ℤ → R) {n m : ℤ} (h : n = m + 1) (hm : 0 ≤ m) (hf : ∀ j, 0 ≤ j → j < m → f j = g j) :
    PROD f n = PROD g m * f m := by
  have e : n.toNat = m.toNat + 1 := by omega
  have e' : ((m.toNat : ℕ) : ℤ) = m := by omega
  unfold PROD
  rw [e, prod_range_succ, e']
  congr 1
  exact prod_congr rfl fun j hj => hf _ (mem_rg hj).1 (mem_rg hj).2

/-- literal lengths 1..4 -/
theorem sum_one (f : ℤ → R) : SUM f 1 = f 0 := by simp [SUM]
theorem sum_two (f : ℤ → R) : SUM f 2 = f 0 + f 1 := by
  have : (2 : ℤ).toNat = 2 := rfl
  simp [SUM, this, sum_range_succ]
theorem sum_three (f : ℤ → R) : SUM f 3 = f 0 + f 1 + f 2 := by
  have : (3 : ℤ).toNat = 3 := rfl
  simp [SUM, this, sum_range_succ]
theorem sum_four (f : ℤ → R) : SUM f 4 = f 0 + f 1 + f 2 + f 3 := by
  have : (4 : ℤ).toNat = 4 := rfl
  simp [SUM, this, sum_range_succ]

theorem sum_const (f : ℤ → R) (b : R) {n : ℤ} (hn : 0 ≤ n) (hf : ∀ j, f j = b) : SUM f n = b * (n : R) := by
  have e : ((n.toNat : ℕ) : R) = (n : R) := by
    have : ((n.toNat : ℕ) : ℤ) = n := by omega
    exact_mod_cast congrArg (fun z : ℤ => (z : R)) this
  simp [SUM, hf, e, mul_comm]

theorem sum_nonneg' (f : ℤ → R) {n : ℤ} (hf : ∀ j, 0 ≤ j → j < n → 0 ≤ f j) : 0 ≤ SUM f n :=
  sum_nonneg fun _ hj => hf _ (mem_rg hj).1 (mem_rg hj).2

theorem sum_ext (f g : ℤ → R) {n m : ℤ} (h : n = m) (hf : ∀ j, 0 ≤ j → j < n → f j = g j) : SUM f n = SUM g m := by
  subst h
  exact sum_congr rfl fun j hj => hf _ (mem_rg hj).1 (mem_rg hj).2

theorem prod_ext (f g : ℤ → R) {n m : ℤ} (h : n = m) (hf : ∀ j, 0 ≤ j → j < n → f j = g j) : PROD f n = PROD g m := by
  subst h
  exact prod_congr rfl fun j hj => hf _ (mem_rg hj).1 (mem_rg hj).2

theorem sum_mono (f g : ℤ → R) {n m : ℤ} (h : n = m) (hf : ∀ j, 0 ≤ j → j < n → f j ≤ g j) : SUM f n ≤ SUM g m := by
  subst h
  exact sum_le_sum fun j hj => hf _ (mem_rg hj).1 (mem_rg hj).2

theorem sum_le_len (f : ℤ → R) {n : ℤ} (hn : 0 ≤ n) (hf : ∀ j, 0 ≤ j → j < n → f j ≤ 1) : SUM f n ≤ (n : R) := by
  have := sum_mono f (fun _ => 1) rfl hf
  rwa [sum_const (fun _ => (1 : R)) 1 hn (fun _ => rfl), one_mul] at this

theorem sum_longer (f g : ℤ → R) {n m : ℤ} (h : m ≤ n) (h0 : ∀ j, 0 ≤ j → j < n → 0 ≤ f j)
    (hf : ∀ j, 0 ≤ j → j < m → g j ≤ f j) : SUM g m ≤ SUM f n := by
  refine le_trans (sum_mono g f rfl hf) ?_
  refine sum_le_sum_of_subset_of_nonneg (range_subset_range.mpr (by omega)) ?_
  intro j hj _
  exact h0 _ (mem_rg hj).1 (mem_rg hj).2

/-- `_cast_pair`: a real sum of integers -/
theorem sum_cast (f : ℤ → ℝ) (g : ℤ → ℤ) {n m : ℤ} (h : n = m) (hf : ∀ j, 0 ≤ j → j < m → f j = (g j : ℝ)) :
    SUM f n = ((SUM g m : ℤ) : ℝ) := by
  subst h
  unfold SUM
  rw [Int.cast_sum]
  exact sum_congr rfl fun j hj => hf _ (mem_rg hj).1 (mem_rg hj).2

/-! `FIRST p n`: the smallest j with p j, or n; `LAST p n`: the largest, or -1 (recursive definitions on the length). -/

def FIRSTN (p : ℤ → Prop) [DecidablePred p] : ℕ → ℤ
  | 0 => 0
  | k + 1 => if FIRSTN p k < k then FIRSTN p k else if p k then k else k + 1
def LASTN (p : ℤ → Prop) [DecidablePred p] : ℕ → ℤ
  | 0 => -1
  | k + 1 => if p k then k else LASTN p k
def FIRST (p : ℤ → Prop) [DecidablePred p] (n : ℤ) : ℤ := FIRSTN p n.toNat
def LAST (p : ℤ → Prop) [DecidablePred p] (n : ℤ) : ℤ := LASTN p n.toNat

theorem firstN_spec (p : ℤ → Prop) [DecidablePred p] (k : ℕ) :
    0 ≤ FIRSTN p k ∧ FIRSTN p k ≤ k ∧ (FIRSTN p k < k → p (FIRSTN p k)) ∧ ∀ j, 0 ≤ j → j < FIRSTN p k → ¬ p j := by
  induction k with
  | zero => simp only [FIRSTN]; refine ⟨le_refl _, le_refl _, fun h => absurd h (by simp), fun j a b => by omega⟩
  | succ k ih =>
    obtain ⟨a, b, c, d⟩ := ih
    simp only [FIRSTN]
    split_ifs with h1 h2
    · exact ⟨a, by push_cast; omega, fun _ => c h1, d⟩
    · have e : FIRSTN p k = k := by omega
      rw [e] at d
      exact ⟨by omega, by push_cast; omega, fun _ => h2, d⟩
    · have e : FIRSTN p k = k := by omega
      rw [e] at d
      refine ⟨by omega, by push_cast; omega, fun h => absurd h (by push_cast; omega), fun j u v => ?_⟩
      by_cases q : j = k
      · rw [q]; exact h2
      · exact d j u (by omega)

theorem first_spec (p : ℤ → Prop) [DecidablePred p] (n : ℤ) :
    0 ≤ FIRST p n ∧ (0 ≤ n → FIRST p n ≤ n) ∧ (n ≤ 0 → FIRST p n = 0) ∧ (FIRST p n < n → p (FIRST p n)) ∧
    ∀ j, 0 ≤ j → j < FIRST p n → ¬ p j := by
  obtain ⟨a, b, c, d⟩ := firstN_spec p n.toNat
  refine ⟨a, fun h => ?_, fun h => ?_, fun h => c ?_, d⟩
  · unfold FIRST; omega
  · unfold FIRST; omega
  · unfold FIRST at h; omega

theorem lastN_spec (p : ℤ → Prop) [DecidablePred p] (k : ℕ) :
    -1 ≤ LASTN p k ∧ LASTN p k < k ∧ (0 ≤ LASTN p k → p (LASTN p k)) ∧ ∀ j, LASTN p k < j → j < k → 0 ≤ j → ¬ p j := by
  induction k with
  | zero => simp only [LASTN]; refine ⟨le_refl _, by simp, fun h => absurd h (by simp), fun j a b c => by push_cast at b; omega⟩
  | succ k ih =>
    obtain ⟨a, b, c, d⟩ := ih
    simp only [LASTN]
    split_ifs with h1
    · exact ⟨by omega, by push_cast; omega, fun _ => h1, fun j u v w => by push_cast at v; omega⟩
    · refine ⟨a, by push_cast; omega, c, fun j u v w => ?_⟩
      by_cases q : j = k
      · rw [q]; exact h1
      · exact d j u (by push_cast at v; omega) w

theorem last_spec (p : ℤ → Prop) [DecidablePred p] (n : ℤ) :
    -1 ≤ LAST p n ∧ (0 ≤ n → LAST p n < n) ∧ (n ≤ 0 → LAST p n = -1) ∧ (0 ≤ LAST p n → p (LAST p n)) ∧
    ∀ j, LAST p n < j → j < n → 0 ≤ j → ¬ p j := by
  obtain ⟨a, b, c, d⟩ := lastN_spec p n.toNat
  refine ⟨a, fun h => ?_, fun h => ?_, c, fun j u v w => d j u (by omega) w⟩
  · unfold LAST; omega
  · have e : n.toNat = 0 := by omega
    unfold LAST; rw [e]; rfl

theorem firstN_ext (p q : ℤ → Prop) [DecidablePred p] [DecidablePred q] (k : ℕ) (h : ∀ j, 0 ≤ j → j < (k : ℤ) → (p j ↔ q j)) :
    FIRSTN p k = FIRSTN q k := by
  induction k with
  | zero => rfl
  | succ k ih =>
    have e := ih fun j a b => h j a (by push_cast; omega)
    have e2 := h k (by omega) (by push_cast; omega)
    simp only [FIRSTN, e, e2]

theorem lastN_ext (p q : ℤ → Prop) [DecidablePred p] [DecidablePred q] (k : ℕ) (h : ∀ j, 0 ≤ j → j < (k : ℤ) → (p j ↔ q j)) :
    LASTN p k = LASTN q k := by
  induction k with
  | zero => rfl
  | succ k ih =>
    have e := ih fun j a b => h j a (by push_cast; omega)
    have e2 := h k (by omega) (by push_cast; omega)
    simp only [LASTN, e, e2]

theorem first_ext (p q : ℤ → Prop) [DecidablePred p] [DecidablePred q] {n m : ℤ} (e : n = m)
    (h : ∀ j, 0 ≤ j → j < n → (p j ↔ q j)) : FIRST p n = FIRST q m := by
  subst e; exact firstN_ext p q _ fun j a b => h j a (by omega)

theorem last_ext (p q : ℤ → Prop) [DecidablePred p] [DecidablePred q] {n m : ℤ} (e : n = m)
    (h : ∀ j, 0 ≤ j → j < n → (p j ↔ q j)) : LAST p n = LAST q m := by
  subst e; exact lastN_ext p q _ fun j a b => h j a (by omega)

theorem first_snoc (p q : ℤ → Prop) [DecidablePred p] [DecidablePred q] {n m : ℤ} (e : n = m + 1) (hm : 0 ≤ m)
    (h : ∀ j, 0 ≤ j → j < m → (p j ↔ q j)) :
    FIRST p n = if FIRST q m < m then FIRST q m else if p m then m else n := by
  have e1 : n.toNat = m.toNat + 1 := by omega
  have e2 : ((m.toNat : ℕ) : ℤ) = m := by omega
  have e3 := first_ext p q rfl h
  unfold FIRST at e3 ⊢
  rw [e1]
  simp only [FIRSTN, e3, e2, e]

theorem last_snoc (p q : ℤ → Prop) [DecidablePred p] [DecidablePred q] {n m : ℤ} (e : n = m + 1) (hm : 0 ≤ m)
    (h : ∀ j, 0 ≤ j → j < m → (p j ↔ q j)) : LAST p n = if p m then m else LAST q m := by
  have e1 : n.toNat = m.toNat + 1 := by omega
  have e2 : ((m.toNat : ℕ) : ℤ) = m := by omega
  have e3 := last_ext p q rfl h
  unfold LAST at e3 ⊢
  rw [e1]
  simp only [LASTN, e3, e2]

/-! `MAX`, `MIN`: attained and a bound (any linear order: ℝ and ℤ) -/

theorem max_exists {S : Type} [LinearOrder S] (f : ℤ → S) (k : ℕ) :
    ∃ w : ℤ, 0 ≤ w ∧ w < (k : ℤ) + 1 ∧ ∀ j : ℤ, 0 ≤ j → j < (k : ℤ) + 1 → f j ≤ f w := by
  induction k with
  | zero => exact ⟨0, le_refl _, by simp, fun j a b => by
      have : j = 0 := by push_cast at b; omega
      rw [this]⟩
  | succ k ih =>
    obtain ⟨w, a, b, c⟩ := ih
    by_cases h : f w ≤ f ((k : ℤ) + 1)
    · refine ⟨(k : ℤ) + 1, by omega, by push_cast; omega, fun j u v => ?_⟩
      by_cases q : j = (k : ℤ) + 1
      · rw [q]
      · exact le_trans (c j u (by push_cast at v; omega)) h
    · refine ⟨w, a, by push_cast; omega, fun j u v => ?_⟩
      by_cases q : j = (k : ℤ) + 1
      · rw [q]; exact le_of_lt (not_le.mp h)
      · exact c j u (by push_cast at v; omega)

theorem max_spec {S : Type} [LinearOrder S] (f : ℤ → S) {n : ℤ} (hn : 1 ≤ n) :
    ∃ t : S, (∃ w : ℤ, 0 ≤ w ∧ w < n ∧ t = f w) ∧ ∀ j : ℤ, 0 ≤ j → j < n → f j ≤ t := by
  obtain ⟨w, a, b, c⟩ := max_exists f (n - 1).toNat
  exact ⟨f w, ⟨w, a, by omega, rfl⟩, fun j u v => c j u (by omega)⟩

theorem min_spec {S : Type} [LinearOrder S] (f : ℤ → S) {n : ℤ} (hn : 1 ≤ n) :
    ∃ t : S, (∃ w : ℤ, 0 ≤ w ∧ w < n ∧ t = f w) ∧ ∀ j : ℤ, 0 ≤ j → j < n → t ≤ f j :=
  max_spec (S := Sᵒᵈ) f hn

/-- a number that is attained and a bound is unique: equal bodies and lengths give equal maxima -/
theorem max_unique {S : Type} [LinearOrder S] (f g : ℤ → S) {n : ℤ} (h : ∀ j, 0 ≤ j → j < n → f j = g j) {t u : S}
    (ht : ∃ w : ℤ, 0 ≤ w ∧ w < n ∧ t = f w) (ht' : ∀ j : ℤ, 0 ≤ j → j < n → f j ≤ t)
    (hu : ∃ w : ℤ, 0 ≤ w ∧ w < n ∧ u = g w) (hu' : ∀ j : ℤ, 0 ≤ j → j < n → g j ≤ u) : t = u := by
  obtain ⟨w, a, b, rfl⟩ := ht
  obtain ⟨v, c, d, rfl⟩ := hu
  refine le_antisymm ?_ ?_
  · rw [h w a b]; exact hu' w a b
  · rw [← h v c d]; exact ht' v c d

end Schemata

#print axioms Schemata.sum_longer
#print axioms Schemata.sum_cast
#print axioms Schemata.sum_snoc
#print axioms Schemata.prod_snoc
#print axioms Schemata.first_snoc
#print axioms Schemata.last_snoc
#print axioms Schemata.first_spec
#print axioms Schemata.last_spec
#print axioms Schemata.max_unique
#print axioms Schemata.min_spec
