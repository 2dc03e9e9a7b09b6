import Mathlib.LinearAlgebra.Lagrange
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.FieldSimp

open Polynomial Finset

variable {K : Type*} [Field K]

/-- the Lagrange product computed by the closure `l` (contract: `lag` of contracts/mds.vx) -/
def lag (xs : ℕ → K) (j : ℕ) (x : K) : ℕ → K
  | 0 => 1
  | n + 1 => if n = j then lag xs j x n else lag xs j x n * (x - xs n) * (xs j - xs n)⁻¹

def negs (ys : ℕ → K) : ℕ → K := fun k => -(ys k)

/-- the entry of the inverse (contract: `sch` of contracts/mds.vx) -/
def sch (xs ys : ℕ → K) (t i j : ℕ) : K :=
  (xs j - -(ys i)) * lag xs j (-(ys i)) t * lag (negs ys) i (xs j) t

theorem lag_eq (xs : ℕ → K) (j : ℕ) (x : K) (n : ℕ) :
    lag xs j x n = (Lagrange.basis (range n) xs j).eval x := by
  rw [Lagrange.basis, eval_prod]
  induction n with
  | zero => simp [lag]
  | succ n ih =>
    rw [lag]
    split_ifs with h
    · subst h
      rw [ih, range_add_one, erase_insert (by simp), erase_eq_of_notMem (by simp)]
    · rw [ih, range_add_one, erase_insert_of_ne (by omega), prod_insert (by simp)]
      simp [Lagrange.basisDivisor]
      ring

/-- Σ_j B_ij A_jk by Lagrange interpolation of (x + y_i) B_i(x) / (x + y_k), a polynomial of degree < t -/
theorem left_inv (xs ys : ℕ → K) (t : ℕ)
    (hx : Set.InjOn xs (range t)) (hy : Set.InjOn ys (range t))
    (hs : ∀ i < t, ∀ j < t, xs i + ys j ≠ 0) (i k : ℕ) (hi : i < t) (hk : k < t) :
    ∑ j ∈ range t, sch xs ys t i j * (xs j + ys k)⁻¹ = if i = k then 1 else 0 := by
  have hn : Set.InjOn (negs ys) (range t) := fun a ha b hb h => hy ha hb (neg_injective h)
  -- the constant of B_i
  let c : K := ∏ m ∈ (range t).erase i, (-(ys i) + ys m)⁻¹
  let Q : K[X] := C c * ∏ m ∈ (range t).erase k, (X + C (ys m))
  have hQd : Q.degree < (range t).card := by
    have h1 : (∏ m ∈ (range t).erase k, (X + C (ys m)) : K[X]).natDegree ≤ t - 1 := by
      refine (natDegree_prod_le _ _).trans ?_
      have : ∑ m ∈ (range t).erase k, (X + C (ys m) : K[X]).natDegree = ((range t).erase k).card := by
        simp
      rw [this, card_erase_of_mem (by simpa using hk), card_range]
    have h2 : Q.natDegree ≤ t - 1 := (natDegree_C_mul_le _ _).trans h1
    rw [card_range]
    refine lt_of_le_of_lt degree_le_natDegree ?_
    exact_mod_cast (by omega : Q.natDegree < t)
  have hB : ∀ x, (Lagrange.basis (range t) (negs ys) i).eval x = c * ∏ m ∈ (range t).erase i, (x + ys m) := by
    intro x
    rw [Lagrange.basis, eval_prod, ← prod_mul_distrib]
    refine prod_congr rfl fun m _ => ?_
    simp [Lagrange.basisDivisor, negs, sub_neg_eq_add]
  have hq : ∀ j < t, sch xs ys t i j * (xs j + ys k)⁻¹ = Q.eval (xs j) * (Lagrange.basis (range t) xs j).eval (-(ys i)) := by
    intro j hj
    have h0 := hs j hj k hk
    have e1 : (xs j + ys i) * ∏ m ∈ (range t).erase i, (xs j + ys m) = ∏ m ∈ range t, (xs j + ys m) :=
      mul_prod_erase _ (fun m => xs j + ys m) (by simpa using hi)
    have e2 : (xs j + ys k) * ∏ m ∈ (range t).erase k, (xs j + ys m) = ∏ m ∈ range t, (xs j + ys m) :=
      mul_prod_erase _ (fun m => xs j + ys m) (by simpa using hk)
    have hQe : Q.eval (xs j) = c * ∏ m ∈ (range t).erase k, (xs j + ys m) := by
      simp [Q, eval_prod]
    rw [sch, lag_eq, lag_eq, hB, hQe, sub_neg_eq_add, ← div_eq_mul_inv, div_eq_iff h0]
    linear_combination (c * (Lagrange.basis (range t) xs j).eval (-(ys i))) * (e1 - e2)
  rw [sum_congr rfl fun j hj => hq j (by simpa using hj)]
  have hint := Lagrange.eq_interpolate hx hQd
  have hev : Q.eval (-(ys i)) = ∑ j ∈ range t, Q.eval (xs j) * (Lagrange.basis (range t) xs j).eval (-(ys i)) := by
    conv_lhs => rw [hint]
    rw [Lagrange.interpolate_apply, eval_finsetSum]
    simp
  rw [← hev]
  have hQv : Q.eval (-(ys i)) = c * ∏ m ∈ (range t).erase k, (-(ys i) + ys m) := by
    simp [Q, eval_prod]
  rw [hQv]
  split_ifs with h
  · subst h
    rw [← prod_mul_distrib]
    refine prod_eq_one fun m hm => ?_
    have hm' := mem_erase.mp hm
    have : -(ys i) + ys m ≠ 0 := by
      intro h
      have : ys m = ys i := by linear_combination h
      exact hm'.1 (hy (by exact_mod_cast hm'.2) (by simpa using hi) this)
    field_simp
  · rw [prod_eq_zero (i := i) (by simp [h, hi]) (by ring), mul_zero]

/-- The two matrices whose entries the contract of `generate_mds` gives are exact inverses of each other. -/
theorem exact_inverse (xs ys : ℕ → K) (t : ℕ)
    (hx : Set.InjOn xs (range t)) (hy : Set.InjOn ys (range t))
    (hs : ∀ i < t, ∀ j < t, xs i + ys j ≠ 0) :
    let A : Matrix (Fin t) (Fin t) K := Matrix.of fun i j => (xs i + ys j)⁻¹
    let B : Matrix (Fin t) (Fin t) K := Matrix.of fun i j => sch xs ys t i j
    B * A = 1 ∧ A * B = 1 := by
  intro A B
  have h : B * A = 1 := by
    ext i k
    have := left_inv xs ys t hx hy hs i k i.2 k.2
    rw [Matrix.mul_apply, Matrix.one_apply]
    simp only [A, B, Matrix.of_apply]
    rw [Fin.sum_univ_eq_sum_range (fun j => sch xs ys t i j * (xs j + ys k)⁻¹), this]
    simp [Fin.ext_iff]
  exact ⟨h, mul_eq_one_comm.mp h⟩

#print axioms exact_inverse
