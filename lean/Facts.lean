/-
Mathematical facts that hov/spec.py and hov/prover.py use as rewrite rules, proved over the reals.
`lean Facts.lean` (Lean 4 + Mathlib) accepts this file; check.sh --thorough runs it.
-/
import Mathlib

open Finset Polynomial Real

namespace Hov

/-- `node` of hov/spec.py. -/
noncomputable def node (n k : ℕ) : ℝ :=
  if n = 1 then 0 else -Real.cos (Real.pi * ((k : ℝ) / ((n : ℝ) - 1)))

/-- `Lag` of hov/spec.py (lag_def): product over all m < n with factor 1 at m = j. -/
noncomputable def Lag (n j : ℕ) (t : ℝ) : ℝ :=
  ∏ m ∈ range n, if m = j then 1 else (t - node n m) / (node n j - node n m)

/-- rule cos_inj -/
theorem cos_inj {a b : ℝ} (ha : a ∈ Set.Icc 0 Real.pi) (hb : b ∈ Set.Icc 0 Real.pi)
    (h : Real.cos a = Real.cos b) : a = b := Real.injOn_cos ha hb h

theorem arg_mem {n k : ℕ} (hk : k < n) (hn : n ≠ 1) :
    Real.pi * ((k : ℝ) / ((n : ℝ) - 1)) ∈ Set.Icc 0 Real.pi := by
  have h1 : (1 : ℝ) < n := by
    have : 1 < n := by omega
    exact_mod_cast this
  have h2 : (k : ℝ) ≤ (n : ℝ) - 1 := by
    have : k + 1 ≤ n := hk
    have : ((k + 1 : ℕ) : ℝ) ≤ n := by exact_mod_cast this
    push_cast at this; linarith
  have h3 : (0 : ℝ) < (n : ℝ) - 1 := by linarith
  have hp := Real.pi_pos
  constructor
  · exact mul_nonneg hp.le (div_nonneg (Nat.cast_nonneg k) h3.le)
  · have : (k : ℝ) / ((n : ℝ) - 1) ≤ 1 := (div_le_one h3).2 h2
    nlinarith

/-- the nodes are pairwise distinct -/
theorem node_inj {n j m : ℕ} (hj : j < n) (hm : m < n) (h : node n j = node n m) : j = m := by
  by_cases hn : n = 1
  · omega
  · simp only [node, hn, if_false, neg_inj] at h
    have h' := cos_inj (arg_mem hj hn) (arg_mem hm hn) h
    have h1 : (1 : ℝ) < n := by
      have : 1 < n := by omega
      exact_mod_cast this
    have h3 : (n : ℝ) - 1 ≠ 0 := by linarith
    have h4 := mul_left_cancel₀ Real.pi_ne_zero h'
    have h5 : (j : ℝ) = m := by
      field_simp at h4
      exact h4
    exact_mod_cast h5

theorem node_injOn (n : ℕ) : Set.InjOn (node n) (range n : Set ℕ) := by
  intro a ha b hb h
  exact node_inj (by simpa using ha) (by simpa using hb) h

/-- the denominators of Lag do not vanish -/
theorem node_sub_ne {n j m : ℕ} (hj : j < n) (hm : m < n) (h : m ≠ j) : node n j - node n m ≠ 0 :=
  fun h0 => h (node_inj hj hm (sub_eq_zero.1 h0)).symm

theorem node_first {n : ℕ} (hn : 2 ≤ n) : node n 0 = -1 := by
  have : n ≠ 1 := by omega
  simp [node, this]

theorem node_last {n : ℕ} (hn : 2 ≤ n) : node n (n - 1) = 1 := by
  have h : n ≠ 1 := by omega
  have h1 : ((n - 1 : ℕ) : ℝ) = (n : ℝ) - 1 := by
    rw [Nat.cast_sub (by omega)]; simp
  have h2 : (n : ℝ) - 1 ≠ 0 := by
    have : (2 : ℝ) ≤ n := by exact_mod_cast hn
    linarith
  simp [node, h, h1, div_self h2]

theorem node_mem {n k : ℕ} : node n k ∈ Set.Icc (-1 : ℝ) 1 := by
  unfold node
  split_ifs
  · simp
  · constructor
    · linarith [Real.cos_le_one (Real.pi * ((k : ℝ) / ((n : ℝ) - 1)))]
    · linarith [Real.neg_one_le_cos (Real.pi * ((k : ℝ) / ((n : ℝ) - 1)))]

/-- nodal values -/
theorem lag_node {n j m : ℕ} (hj : j < n) (hm : m < n) : Lag n j (node n m) = if j = m then 1 else 0 := by
  unfold Lag
  split_ifs with h
  · subst h
    apply prod_eq_one
    intro i hi
    split_ifs with hij
    · rfl
    · exact div_self (node_sub_ne hj (by simpa using hi) hij)
  · refine prod_eq_zero (i := m) (by simpa using hm) ?_
    have : ¬ m = j := fun e => h e.symm
    simp [this]

/-- _lag_smart: values at the end points -/
theorem lag_left {n j : ℕ} (hn : 2 ≤ n) (hj : j < n) : Lag n j (-1) = if j = 0 then 1 else 0 := by
  rw [← node_first hn]; exact lag_node hj (by omega)

theorem lag_right {n j : ℕ} (hn : 2 ≤ n) (hj : j < n) : Lag n j 1 = if j = n - 1 then 1 else 0 := by
  have h := lag_node hj (m := n - 1) (by omega)
  rwa [node_last hn] at h

theorem lag_one {t : ℝ} : Lag 1 0 t = 1 := by simp [Lag]

/-- Lag(n, L, j, x) of hov/spec.py is stored scale-free: scaling nodes and argument together changes nothing. -/
theorem lag_scale {n j : ℕ} {a t : ℝ} (ha : a ≠ 0) :
    (∏ m ∈ range n, if m = j then 1 else (a * t - a * node n m) / (a * node n j - a * node n m)) = Lag n j t := by
  unfold Lag
  apply prod_congr rfl
  intro m _
  split_ifs
  · rfl
  · rw [← mul_sub, ← mul_sub, mul_div_mul_left _ _ ha]

/-- Lag is Mathlib's Lagrange basis polynomial on these nodes. -/
theorem lag_basis {n j : ℕ} (hj : j < n) (t : ℝ) : Lag n j t = (Lagrange.basis (range n) (node n) j).eval t := by
  unfold Lag Lagrange.basis
  rw [eval_prod, ← mul_prod_erase (range n) _ (by simpa using hj : j ∈ range n)]
  simp only [if_true, one_mul]
  apply prod_congr rfl
  intro m hm
  have : m ≠ j := (mem_erase.1 hm).1
  simp [this, Lagrange.basisDivisor, div_eq_mul_inv, mul_comm]

theorem lag_degree {n j : ℕ} (hj : j < n) : (Lagrange.basis (range n) (node n) j).degree < n := by
  have h := Lagrange.degree_basis (node_injOn n) (by simpa using hj : j ∈ range n)
  rw [h]
  simp only [card_range]
  exact_mod_cast (by omega : n - 1 < n)

/-- rule lag_exact: interpolation reproduces polynomials of degree < n. -/
theorem lag_exact {n : ℕ} (g : ℝ[X]) (hg : g.degree < n) (t : ℝ) :
    ∑ v ∈ range n, g.eval (node n v) * Lag n v t = g.eval t := by
  have h := Lagrange.eq_interpolate (s := range n) (v := node n) (f := g) (node_injOn n) (by simpa using hg)
  conv_rhs => rw [h]
  rw [Lagrange.interpolate_apply, eval_finsetSum]
  apply sum_congr rfl
  intro v hv
  rw [lag_basis (by simpa using hv), eval_mul, eval_C]

/-- partition of unity -/
theorem lag_sum {n : ℕ} (hn : 1 ≤ n) (t : ℝ) : ∑ v ∈ range n, Lag n v t = 1 := by
  have h := lag_exact (n := n) 1 (by
    rw [degree_one]
    exact_mod_cast (by omega : 0 < n)) t
  simpa using h

/-- a straight line is reproduced (linear initialisation) -/
theorem lag_linear {n : ℕ} (hn : 2 ≤ n) (a b t : ℝ) : ∑ v ∈ range n, (a * node n v + b) * Lag n v t = a * t + b := by
  have h := lag_exact (n := n) (C a * X + C b) (lt_of_le_of_lt degree_linear_le (by exact_mod_cast (by omega : 1 < n))) t
  simpa using h

/-- lag_exact with a Lagrange factor of a coarser grid at an affine argument: p- and h-refinement. -/
theorem lag_refine {n N i : ℕ} (hi : i < n) (hN : n ≤ N) (a b t : ℝ) :
    ∑ v ∈ range N, Lag n i (a * node N v + b) * Lag N v t = Lag n i (a * t + b) := by
  let q : ℝ[X] := (Lagrange.basis (range n) (node n) i).comp (C a * X + C b)
  have hq : q.degree < N := by
    have h1 : (Lagrange.basis (range n) (node n) i).natDegree ≤ n - 1 := by
      have := Lagrange.degree_basis (node_injOn n) (by simpa using hi : i ∈ range n)
      rw [card_range] at this
      exact natDegree_le_of_degree_le this.le
    have h2 : q.natDegree ≤ n - 1 := by
      refine natDegree_comp_le.trans ?_
      calc _ ≤ (n - 1) * 1 := Nat.mul_le_mul h1 natDegree_linear_le
        _ = n - 1 := by simp
    refine lt_of_le_of_lt (degree_le_natDegree) ?_
    exact_mod_cast (by omega : q.natDegree < N)
  have h := lag_exact q hq t
  simpa [q, eval_comp, ← lag_basis hi] using h

/-- Segment index (seg_norm of hov/spec.py). -/
noncomputable def seg (t : ℝ) (s : ℤ) : ℤ :=
  let f := ⌊(t + 1/2) * s⌋
  if f < 0 then 0 else if s - 1 < f then s - 1 else f

theorem seg_range (t : ℝ) {s : ℤ} (hs : 1 ≤ s) : 0 ≤ seg t s ∧ seg t s ≤ s - 1 := by
  unfold seg; simp only; split_ifs <;> omega

/-- seg_split: the segment among s*c is c times the segment among s, plus r with 0 <= r < c. -/
theorem seg_refine (t : ℝ) {s c : ℤ} (hs : 1 ≤ s) (hc : 1 ≤ c) :
    0 ≤ seg t (s * c) - c * seg t s ∧ seg t (s * c) - c * seg t s ≤ c - 1 := by
  unfold seg; simp only
  set y : ℝ := (t + 1/2) * s with hy
  have e : (t + 1/2) * ((s * c : ℤ) : ℝ) = y * c := by rw [hy]; push_cast; ring
  rw [e]
  have hcr : (0 : ℝ) < c := by exact_mod_cast (by omega : (0:ℤ) < c)
  have a1 : c * ⌊y⌋ ≤ ⌊y * c⌋ := by
    rw [Int.le_floor]; push_cast
    have := Int.floor_le y; nlinarith
  have a2 : ⌊y * c⌋ < c * ⌊y⌋ + c := by
    rw [Int.floor_lt]; push_cast
    have := Int.lt_floor_add_one y; nlinarith
  generalize ⌊y⌋ = f at *
  generalize ⌊y * c⌋ = g at *
  split_ifs <;> constructor <;> nlinarith

/-- fold of hov/spec.py -/
noncomputable def fold (x p : ℝ) : ℝ :=
  let h := p / 2
  let t := (x + h) - ⌊(x + h) / (p * 2)⌋ * p * 2
  (if p < t then p * 2 - t else t) - h

theorem fold_range {x p : ℝ} (hp : 0 < p) : -(p/2) ≤ fold x p ∧ fold x p ≤ p/2 := by
  unfold fold; simp only
  have h1 := Int.floor_le ((x + p/2) / (p * 2))
  have h2 := Int.lt_floor_add_one ((x + p/2) / (p * 2))
  have hp2 : (0:ℝ) < p * 2 := by linarith
  rw [le_div_iff₀ hp2] at h1
  rw [div_lt_iff₀ hp2] at h2
  generalize (⌊(x + p/2) / (p * 2)⌋ : ℝ) = f at *
  split_ifs <;> constructor <;> nlinarith

/-- rule floor_sign -/
theorem floor_neg_div {N t : ℤ} (ht : 1 ≤ t) : (-N) / t = -((N - 1) / t) - 1 := by
  have e1 := Int.emod_add_mul_ediv (N - 1) t
  have e2 := Int.emod_nonneg (N - 1) (by omega : t ≠ 0)
  have e3 := Int.emod_lt_of_pos (N - 1) (by omega : 0 < t)
  have : -N = (t - 1 - (N - 1) % t) + t * (-((N - 1) / t) - 1) := by nlinarith
  rw [this, Int.add_mul_ediv_left _ _ (by omega : t ≠ 0), Int.ediv_eq_zero_of_lt (by omega) (by omega)]
  ring

/-- rule radix split of sums -/
theorem sum_radix {q M : ℕ} (f : ℕ → ℝ) :
    ∑ v ∈ range (q * M), f v = ∑ a ∈ range q, ∑ b ∈ range M, f (a * M + b) := by
  induction q with
  | zero => simp
  | succ k ih => rw [Nat.succ_mul, sum_range_add, ih, sum_range_succ]

/-- rule ite_sum (interval guard): only the guarded range contributes -/
theorem sum_interval {n a m : ℕ} (h : a + m ≤ n) (f : ℕ → ℝ) :
    (∑ v ∈ range n, if a ≤ v ∧ v < a + m then f v else 0) = ∑ w ∈ range m, f (w + a) := by
  rw [← sum_filter]
  have : (range n).filter (fun v => a ≤ v ∧ v < a + m) = Finset.Ico a (a + m) := by
    ext v; simp; omega
  rw [this, sum_Ico_eq_sum_range]
  simp [add_comm]

/-- C15: an entry is at most the Euclidean norm, so the quotient lies in [-1, 1]. -/
theorem abs_le_norm {n i : ℕ} (x : ℕ → ℝ) (hi : i < n) : |x i| ≤ Real.sqrt (∑ j ∈ range n, x j ^ 2) := by
  rw [← Real.sqrt_sq_eq_abs]
  exact Real.sqrt_le_sqrt (single_le_sum (f := fun j => x j ^ 2) (fun j _ => sq_nonneg _) (by simpa using hi))

/-- Fourier basis functions have period L. -/
theorem fourier_period (i : ℕ) (x : ℝ) {L : ℝ} (hL : L ≠ 0) :
    Real.cos (2 * Real.pi * i * (x + L) / L) = Real.cos (2 * Real.pi * i * x / L) ∧
    Real.sin (2 * Real.pi * i * (x + L) / L) = Real.sin (2 * Real.pi * i * x / L) := by
  have e : 2 * Real.pi * i * (x + L) / L = 2 * Real.pi * i * x / L + i * (2 * Real.pi) := by
    field_simp
  rw [e]
  exact ⟨Real.cos_add_nat_mul_two_pi _ _, Real.sin_add_nat_mul_two_pi _ _⟩

end Hov
