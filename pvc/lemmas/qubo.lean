import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Ring
import Mathlib.Algebra.BigOperators.Group.Finset.Sigma
import Mathlib.Tactic.Positivity
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.LinearCombination

open Finset

/-- Sum of squared residuals, expanded for 0/1 decisions. -/
theorem qubo_eq {N n : ℕ} (c r : ℝ) (x : Fin N → Fin n → ℝ) (d : Fin N → ℝ)
    (z : Fin n → ℝ) (y : ℝ) (hz : ∀ i, z i * z i = z i) (hy : y * y = y) :
    (∑ i, (∑ s, c * (x s i * (x s i - 2 * d s))) * (z i * z i))
      + (∑ i, ∑ j, if i = j then 0 else (∑ s, c * (x s i * x s j)) * (z i * z j))
      + (∑ s, c * (r * (r - 2 * d s))) * (y * y)
      + (∑ i, (∑ s, c * (r * x s i)) * (z i * y))
      + (∑ i, (∑ s, c * (r * x s i)) * (y * z i))
    = (∑ s, c * (d s - (∑ i, z i * x s i) - r * y) ^ 2) - ∑ s, c * (d s) ^ 2 := by
  have hsq : ∀ s, (∑ i, z i * x s i) ^ 2
      = (∑ i, x s i * x s i * z i) + ∑ i, ∑ j, if i = j then 0 else x s i * x s j * (z i * z j) := by
    intro s
    rw [sq, Finset.sum_mul_sum, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun i _ => ?_
    have : ∀ j, z i * x s i * (z j * x s j)
        = (if i = j then x s i * x s i * z i else 0) + (if i = j then 0 else x s i * x s j * (z i * z j)) := by
      intro j
      by_cases h : i = j
      · subst h; simp only [if_true]; linear_combination (x s i * x s i) * hz i
      · simp only [h, if_false]; ring
    rw [Finset.sum_congr rfl fun j _ => this j, Finset.sum_add_distrib]
    simp
  have e1 : (∑ i, (∑ s, c * (x s i * (x s i - 2 * d s))) * (z i * z i))
      = ∑ s, c * ((∑ i, x s i * x s i * z i) - 2 * d s * ∑ i, z i * x s i) := by
    simp_rw [Finset.sum_mul]
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun s _ => ?_
    rw [Finset.mul_sum, ← Finset.sum_sub_distrib, Finset.mul_sum]
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [hz i]; ring
  have e2 : (∑ i, ∑ j, if i = j then 0 else (∑ s, c * (x s i * x s j)) * (z i * z j))
      = ∑ s, c * ∑ i, ∑ j, if i = j then 0 else x s i * x s j * (z i * z j) := by
    have : ∀ i j : Fin n, (if i = j then (0:ℝ) else (∑ s, c * (x s i * x s j)) * (z i * z j))
        = ∑ s, (if i = j then 0 else c * (x s i * x s j * (z i * z j))) := by
      intro i j
      by_cases h : i = j
      · simp [h]
      · simp only [h, if_false, Finset.sum_mul]
        exact Finset.sum_congr rfl fun s _ => by ring
    simp_rw [this]
    rw [Finset.sum_congr rfl fun i _ => Finset.sum_comm, Finset.sum_comm]
    refine Finset.sum_congr rfl fun s _ => ?_
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun j _ => ?_
    by_cases h : i = j <;> simp [h]
  have e4 : (∑ i, (∑ s, c * (r * x s i)) * (z i * y)) = ∑ s, c * (r * y * ∑ i, z i * x s i) := by
    simp_rw [Finset.sum_mul]
    rw [Finset.sum_comm]
    refine Finset.sum_congr rfl fun s _ => ?_
    rw [Finset.mul_sum, Finset.mul_sum]
    exact Finset.sum_congr rfl fun i _ => by ring
  have e5 : (∑ i, (∑ s, c * (r * x s i)) * (y * z i)) = ∑ s, c * (r * y * ∑ i, z i * x s i) := by
    rw [← e4]; exact Finset.sum_congr rfl fun i _ => by ring
  rw [e1, e2, e4, e5, Finset.sum_mul, ← Finset.sum_add_distrib, ← Finset.sum_add_distrib,
    ← Finset.sum_add_distrib, ← Finset.sum_add_distrib, ← Finset.sum_sub_distrib]
  refine Finset.sum_congr rfl fun s _ => ?_
  have := hsq s
  rw [hy]
  linear_combination c * r ^ 2 * (-1) * hy - c * this

/-- ... which is the mean squared error of the output with the rounded-down weights
plus the decisions, on the rounded inputs, up to the error without any decision. -/
theorem qubo_mse {N n : ℕ} (sw sx sb : ℝ) (hw : 0 < sw) (hx : 0 < sx) (hsb : sb = sx * sw)
    (x : Fin N → Fin n → ℝ) (out : Fin N → ℝ) (k : Fin n → ℝ) (b : ℝ) (fl : ℝ → ℝ)
    (z : Fin n → ℝ) (y : ℝ) (hz : ∀ i, z i * z i = z i) (hy : y * y = y)
    (c r : ℝ) (hc : c = (sw * sx) * (sw * sx) * (1 / N)) (hr : r = sb / (sw * sx))
    (d : Fin N → ℝ)
    (hd : ∀ s, d s = out s / (sw * sx) - r * fl (b / (sw * sx)) - ∑ i, fl (k i / sw) * x s i) :
    (∑ i, (∑ s, c * (x s i * (x s i - 2 * d s))) * (z i * z i))
      + (∑ i, ∑ j, if i = j then 0 else (∑ s, c * (x s i * x s j)) * (z i * z j))
      + (∑ s, c * (r * (r - 2 * d s))) * (y * y)
      + (∑ i, (∑ s, c * (r * x s i)) * (z i * y))
      + (∑ i, (∑ s, c * (r * x s i)) * (y * z i))
    = 1 / N * (∑ s, (out s - ((∑ i, sw * (fl (k i / sw) + z i) * (sx * x s i))
          + sb * (fl (b / sb) + y))) ^ 2)
      - 1 / N * ∑ s, (out s - ((∑ i, sw * fl (k i / sw) * (sx * x s i)) + sb * fl (b / sb))) ^ 2 := by
  have hp : sw * sx ≠ 0 := by positivity
  have hps : sw * sx = sb := by rw [hsb]; ring
  have hr1 : r = 1 := by rw [hr, ← hps]; exact div_self hp
  rw [qubo_eq c r x d z y hz hy, Finset.mul_sum, Finset.mul_sum]
  congr 1 <;> refine Finset.sum_congr rfl fun s _ => ?_
  · have e : (∑ i, sw * (fl (k i / sw) + z i) * (sx * x s i))
        = sw * sx * ((∑ i, fl (k i / sw) * x s i) + ∑ i, z i * x s i) := by
      rw [← Finset.sum_add_distrib, Finset.mul_sum]
      exact Finset.sum_congr rfl fun i _ => by ring
    have e2 : out s - ((∑ i, sw * (fl (k i / sw) + z i) * (sx * x s i)) + sb * (fl (b / sb) + y))
        = (sw * sx) * (d s - (∑ i, z i * x s i) - r * y) := by
      rw [e, hd s, hr1, ← hps]; field_simp; ring
    rw [e2, hc]; ring
  · have e : (∑ i, sw * fl (k i / sw) * (sx * x s i)) = sw * sx * ∑ i, fl (k i / sw) * x s i := by
      rw [Finset.mul_sum]
      exact Finset.sum_congr rfl fun i _ => by ring
    have e2 : out s - ((∑ i, sw * fl (k i / sw) * (sx * x s i)) + sb * fl (b / sb))
        = (sw * sx) * d s := by
      rw [e, hd s, hr1, ← hps]; field_simp; ring
    rw [e2, hc]; ring

#print axioms qubo_mse
