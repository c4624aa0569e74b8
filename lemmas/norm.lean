/-! The arithmetic facts which `lemma_norm` of contracts/c_attrs.py hands to the solver.
`norm x n` is the truncating remainder of x by n > 0, moved up by n if negative.  The machine
values are 32 bit wide with |x|, n < 2^30, so that no operation wraps. -/

def norm (x n : Int) : Int := if Int.tmod x n < 0 then Int.tmod x n + n else Int.tmod x n

theorem norm_eq (x n : Int) (h : 0 < n) : norm x n = x % n := by
  unfold norm
  have e := Int.emod_def x n
  have t := Int.tmod_def x n
  have m := Int.tmod_lt_of_pos x h
  have l := Int.emod_lt_of_pos x h
  have p := Int.emod_nonneg x (Int.ne_of_gt h)
  rcases Int.le_total 0 x with hx | hx
  · have := Int.tmod_nonneg n hx
    have q := Int.tmod_eq_emod_of_nonneg (b := n) hx
    split <;> omega
  · have q := Int.tmod_eq_emod (a := x) (b := n)
    have a := Int.natAbs_of_nonneg (Int.le_of_lt h)
    by_cases d : 0 ≤ x ∨ n ∣ x
    · rw [if_pos d] at q
      split <;> omega
    · rw [if_neg d] at q
      split <;> omega

theorem down (x n : Int) (h : 0 < n) : norm (x - n) n = norm x n := by
  rw [norm_eq _ _ h, norm_eq _ _ h]; exact Int.sub_emod_right x n

theorem up (x n : Int) (h : 0 < n) : norm (x + n) n = norm x n := by
  rw [norm_eq _ _ h, norm_eq _ _ h]; exact Int.add_emod_right x n

theorem inside (x n : Int) (h : 0 ≤ x) (l : x < n) : norm x n = x := by
  rw [norm_eq _ _ (Int.lt_of_le_of_lt h l)]; exact Int.emod_eq_of_lt h l

theorem range (x n : Int) (h : 0 < n) : 0 ≤ norm x n ∧ norm x n < n := by
  rw [norm_eq _ _ h]
  exact ⟨Int.emod_nonneg x (Int.ne_of_gt h), Int.emod_lt_of_pos x h⟩
