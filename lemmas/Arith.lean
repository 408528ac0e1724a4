/- C19: the facts about whole numbers that contracts/gcd.c and contracts/prime.c assume, and what their postconditions amount to. -/
import Mathlib.Data.Nat.Prime.Basic
import Mathlib.Data.Nat.GCD.Basic

/-- contracts/gcd.c, yv_rem: what divides both a and b divides both b and the remainder, and the other way round -/
theorem divides_rem (d a b : ℕ) : (d ∣ a ∧ d ∣ b) ↔ (d ∣ b ∧ d ∣ a % b) := by
  constructor
  · rintro ⟨ha, hb⟩; exact ⟨hb, (Nat.dvd_mod_iff hb).mpr ha⟩
  · rintro ⟨hb, hr⟩; exact ⟨(Nat.dvd_mod_iff hb).mp hr, hb⟩

/-- the postcondition of gcd_helper is that of the greatest common divisor -/
theorem gcd_post (g a b : ℕ) (h : ∀ d, d ∣ g ↔ (d ∣ a ∧ d ∣ b)) : g = Nat.gcd a b :=
  Nat.dvd_antisymm (Nat.dvd_gcd ((h g).mp dvd_rfl).1 ((h g).mp dvd_rfl).2)
    ((h _).mpr ⟨Nat.gcd_dvd_left a b, Nat.gcd_dvd_right a b⟩)

/-- b / gcd * a is the least common multiple -/
theorem lcm_post (a b : ℕ) : b / Nat.gcd a b * a = Nat.lcm a b := by
  rw [Nat.div_mul_right_comm (Nat.gcd_dvd_right a b), Nat.mul_comm b a, Nat.lcm]

/-- contracts/prime.c: a number without a prime divisor below 200 and without an odd divisor from 201 up to its root is prime -/
theorem prime_post (x : ℕ) (h2 : 2 ≤ x) (hp : ∀ p, p.Prime → p < 200 → ¬ p ∣ x)
    (hd : ∀ d, 201 ≤ d → d % 2 = 1 → d * d ≤ x → ¬ d ∣ x) : x.Prime := by
  by_contra hn
  have h1 : x ≠ 1 := by omega
  have hm := Nat.minFac_prime h1
  have hdvd := Nat.minFac_dvd x
  have hsq : x.minFac * x.minFac ≤ x := by
    have := Nat.minFac_sq_le_self (by omega : 0 < x) hn
    rwa [pow_two] at this
  have hge : 200 ≤ x.minFac := by
    by_contra hlt
    exact hp _ hm (by omega) hdvd
  have hodd : x.minFac % 2 = 1 := by
    rcases hm.eq_two_or_odd with h | h
    · omega
    · exact h
  exact hd _ (by omega) hodd hsq hdvd

/-- a number with a divisor between 1 and itself is not prime -/
theorem not_prime_post (x w : ℕ) (h1 : 1 < w) (h2 : w < x) (h : w ∣ x) : ¬ x.Prime := fun hp =>
  (hp.eq_one_or_self_of_dvd w h).elim (by omega) (by omega)

#print axioms divides_rem
#print axioms prime_post
